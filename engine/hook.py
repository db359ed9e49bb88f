"""Import hook: load kasa from the source tree with symbolic dispatch points.

Every module of the package is parsed from the current working tree, calls,
``in``/``is`` tests and subscripts are routed through the helpers below (which
behave exactly like the original operation when nothing symbolic is involved),
and every function records that it was executed.
"""

from __future__ import annotations

import ast
import base64
import binascii
import builtins
import datetime
import enum
import functools
import importlib.abc
import importlib.util
import os
import re
import string
import struct
import zlib
import sys

from . import sym
from .sym import (
    Sym,
    SymBool,
    SymBytes,
    SymDT,
    SymEnum,
    SymInt,
    SymReal,
    SymStr,
    SymTD,
    has_sym,
    mkbool,
    mkint,
    mkreal,
)

ENTERED: set[str] = set()

NO_CALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack: list[str] = []

    # functions -----------------------------------------------------------
    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else None for d in a.kw_defaults]
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        q = f"{self.mod}:{'.'.join(self.stack)}"
        enter = ast.Expr(
            ast.Call(ast.Name("_S_enter_", ast.Load()), [ast.Constant(q)], [])
        )
        pos = (
            1
            if body
            and isinstance(body[0], ast.Expr)
            and isinstance(body[0].value, ast.Constant)
            and isinstance(body[0].value.value, str)
            else 0
        )
        body.insert(pos, enter)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d else None for d in node.kw_defaults]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # expressions ---------------------------------------------------------
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and (f.id in NO_CALL or f.id.startswith("_S_")):
            return node
        return ast.Call(
            ast.Name("_S_call_", ast.Load()), [f, *node.args], node.keywords
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        left, right = node.left, node.comparators[0]
        none = isinstance(right, ast.Constant) and right.value is None
        name = {
            ast.In: "_S_in_",
            ast.NotIn: "_S_notin_",
            ast.Is: None if none else "_S_is_",
            ast.IsNot: None if none else "_S_isnot_",
        }.get(type(op))
        if not name:
            return node
        return ast.Call(ast.Name(name, ast.Load()), [left, right], [])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.Call(
                ast.Name("_S_getitem_", ast.Load()), [node.value, node.slice], []
            )
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("_S_set_", ast.Load()), node.elts, [])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        items = ast.ListComp(node.elt, node.generators)
        return ast.Call(ast.Name("_S_set_", ast.Load()), [ast.Starred(items, ast.Load())], [])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return _mod_node(node) if isinstance(node.op, ast.Mod) else node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant(None)
                parts.append(
                    ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load())
                )
        return ast.Call(ast.Name("_S_fstr_", ast.Load()), parts, [])


def _mod_node(node):
    """`"..." % x`: str would format a symbolic text away."""
    if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
        return ast.Call(ast.Name("_S_mod_", ast.Load()), [node.left, node.right], [])
    return node


# ---------------------------------------------------------------------------
# dispatch helpers

MISSING = object()


def resolve_key(d, k):
    """Symbolic key -> the equal concrete key of d, or MISSING (forks)."""
    keys = list(d)
    conds, outs = [], []
    rest = sym.z3.BoolVal(True)
    for c in keys:
        r = sym.bterm(k == c) if not (c is None) else sym.z3.BoolVal(False)
        r = sym.z3.simplify(sym.z3.And(rest, r))
        rest = sym.z3.And(rest, sym.z3.Not(r))
        if sym.z3.is_false(r):
            continue
        conds.append(r)
        outs.append(c)
    conds.append(sym.z3.simplify(rest))
    outs.append(MISSING)
    return outs[sym.cur().fork(conds)]


def s_in(a, b):
    if type(b) in (SymBytes, SymStr):
        return a in b
    sa = issubclass(type(a), Sym)
    if isinstance(b, (list, tuple, set, frozenset)) or type(b) in (
        type({}.keys()),
        type({}.values()),
        dict,
    ) or isinstance(b, dict):
        if sa:
            return sym.Or(*[_eqterm(a, x) for x in b])
        if not isinstance(b, (dict, set, frozenset)) and any(
            issubclass(type(x), Sym) for x in b
        ):
            return sym.Or(*[_eqterm(x, a) if issubclass(type(x), Sym) else x is a or x == a for x in b])
        return a in b
    if sa and isinstance(b, range) and type(a) in (SymInt, sym.SymByte):
        if not len(b):
            return False
        return sym.And(a >= b[0], a <= b[-1], (a - b[0]) % b.step == 0) if b.step > 0 else a._conc() in b
    if sa and isinstance(b, enum.EnumMeta):
        if type(a) is SymEnum:
            return a.cls is b
        return sym.Or(*[_eqterm(a, m.value) for m in b])
    if type(a) is SymStr and isinstance(b, str):
        ca = SymStr.codes(a)
        n = len(ca)
        return sym.Or(
            *[
                sym.And(*[x == ord(y) for x, y in zip(ca, b[i : i + n])])
                for i in range(len(b) - n + 1)
            ]
        )
    return a in b


def _eqterm(a, x):
    r = a == x
    if r is NotImplemented:
        r = x == a
    return False if r is NotImplemented else r


def s_notin(a, b):
    r = s_in(a, b)
    return sym.Not(r) if type(r) is SymBool else not r


def s_is(a, b):
    sa, sb = issubclass(type(a), Sym), issubclass(type(b), Sym)
    if sa or sb:
        if not sa:
            a, b = b, a
        if a is b:
            return True
        if type(a) is SymBool and type(b) in (bool, SymBool):
            return a == b
        if type(a) is SymEnum:
            if type(b) is SymEnum or type(b) is a.cls:
                return a == b
            return False
        if type(a) in (SymInt, sym.SymByte) and type(b) is int:
            return a == b
        return False
    return a is b


def s_isnot(a, b):
    r = s_is(a, b)
    return sym.Not(r) if type(r) is SymBool else not r


def s_getitem(o, k):
    if issubclass(type(k), Sym) and isinstance(o, dict):
        r = resolve_key(o, k)
        if r is MISSING:
            if hasattr(type(o), "__missing__"):
                return o[k]
            raise KeyError(k)
        return o[r]
    if type(k) is SymEnum and isinstance(o, enum.EnumMeta):
        return o[k]
    return o[k]


class SymSet(list):
    """Elements of a set some of which are symbolic; equal ones are told apart when they are counted only."""

    __slots__ = ()
    __hash__ = None

    def distinct(self):
        out: list = []
        for x in self:
            if not any(bool(sym.truth(_eqterm(y, x))) for y in out):
                out.append(x)
        return out

    def __len__(self):
        return len(self.distinct())

    def __bool__(self):
        return True


def s_set(*items):
    if not any(issubclass(type(x), Sym) for x in items):
        return set(items)
    return SymSet(items)


def s_fstr(*parts):
    out = []
    symbolic = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if type(v) is SymStr and conv == -1 and not spec:
            out.append(v)
            symbolic = True
            continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        out.append(format(v, spec if spec is not None else ""))
    if symbolic:
        return sym.join("", out)
    return "".join(out)


def s_format(text, a, k):
    """str.format with symbolic texts in it, or MISSING where it is not that simple."""
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(text):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if "{" in (spec or ""):
            return MISSING
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit() and int(field) < len(a):
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return MISSING
        parts.append((v, ord(conv) if conv else -1, spec or None))
    return s_fstr(*parts)


def s_mod(text, v):
    args = v if type(v) is tuple else (v,)
    if any(type(x) is SymStr for x in args):
        bits = re.split(r"%([srd%])", text)
        if "%" not in "".join(bits[0::2]):
            parts, rest = [], list(args)
            for i, b in enumerate(bits):
                if i % 2 == 0:
                    parts.append(b)
                elif b == "%":
                    parts.append("%")
                elif not rest:
                    return text % v
                else:
                    x = rest.pop(0)
                    parts.append((x, 114 if b == "r" else -1, None))
            if not rest:
                return s_fstr(*parts)
    return text % v


class BoxedStr(str):
    """JSON text whose document contains symbolic values."""

    obj = None

    def encode(self, *a, **k):
        r = BoxedBytes(str(self)[:].encode())
        r.obj = self.obj
        return r


class BoxedBytes(bytes):
    obj = None

    def decode(self, *a, **k):
        r = BoxedStr(bytes(self).decode("utf-8"))
        r.obj = self.obj
        return r


def boxed(obj) -> BoxedBytes:
    def conv(x):
        if issubclass(type(x), Sym):
            return str(x)
        raise TypeError(f"Type is not JSON serializable: {type(x).__name__}")

    import json

    class Enc(json.JSONEncoder):
        def iterencode(self, o, _one_shot=False):
            return super().iterencode(strip(o), _one_shot)

    def strip(o):
        if issubclass(type(o), Sym):
            return str(o) if type(o) is not SymStr else sym.token(o)
        if isinstance(o, dict):
            return {(strip(k) if not isinstance(k, str) or issubclass(type(k), Sym) else k): strip(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [strip(v) for v in o]
        if isinstance(o, enum.Enum) and not isinstance(o, (int, str)):
            return strip(o.value)
        if o is None or isinstance(o, (str, int, float, bool)):
            return o
        raise TypeError(f"Type is not JSON serializable: {type(o).__name__}")

    r = BoxedBytes(json.dumps(strip(obj), separators=(",", ":"), ensure_ascii=False).encode())
    r.obj = freeze(obj)
    return r


def freeze(o):
    """Snapshot of a JSON-like document (symbolic leaves shared)."""
    if issubclass(type(o), Sym):
        return o
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [freeze(v) for v in o]
    return o


# -- handlers for builtins / C functions -------------------------------------

H: dict = {}


def handles(*fs):
    def deco(g):
        for f in fs:
            H[f] = g
        return g

    return deco


@handles(int)
def _int(f, *a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t in (SymInt, sym.SymByte):
            return x
        if t is SymBool:
            return mkint(sym.num(x))
        if t is SymReal:
            return sym.trunc(x)
        if t is SymEnum:
            return x.value
        if t is SymStr:
            return int(x.conc())
        if type(x) is str and "\u2039sym:" in x:
            v = untoken(x)
            if v is not None:
                return _int(int, v)
    return f(*a, **k)


def untoken(s):
    if s.startswith("\u2039sym:") and s.endswith("\u203a") and s.count("\u2039") == 1:
        p = sym.CUR
        if p is not None:
            return p.tokens[int(s[5:-1])]
    return None


@handles(ast.literal_eval)
def _literal(f, s):
    if type(s) is str and "\u2039sym:" in s:
        v = untoken(s)
        if v is not None:
            return v
    return f(s)


@handles(float)
def _float(f, *a, **k):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymReal:
            return x
        if type(x) in (SymInt, sym.SymByte, SymBool):
            return mkreal(sym.toreal(sym.num(x)))
        if type(x) is str and "\u2039sym:" in x:
            v = untoken(x)
            if v is not None:
                return _float(float, v)
    return f(*a, **k)


@handles(bool)
def _bool(f, *a, **k):
    if len(a) == 1 and issubclass(type(a[0]), Sym):
        return sym.truth(a[0])
    return f(*a, **k)


@handles(str)
def _str(f, *a, **k):
    if len(a) == 1 and type(a[0]) is SymStr:
        return a[0]
    if a and type(a[0]) is SymBytes and len(a) > 1:
        return a[0].decode(*a[1:])
    return f(*a, **k)


@handles(type)
def _type(f, *a, **k):
    if len(a) == 1 and issubclass(type(a[0]), Sym):
        return a[0].__class__
    return f(*a, **k)


@handles(bytes, bytearray)
def _bytes(f, *a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymBytes:
            return SymBytes(list(x.items))
        if not isinstance(x, (bytes, bytearray, int, str, memoryview)) and hasattr(
            x, "__iter__"
        ):
            items = list(x)
            if any(issubclass(type(i), Sym) for i in items):
                out = []
                for i in items:
                    if type(i) is SymInt:
                        if not bool(sym.And(i >= 0, i < 256)):
                            raise ValueError("bytes must be in range(0, 256)")
                        i = sym.mkbyte(sym.bv8(i))
                    out.append(i)
                return SymBytes.of(out)
            return f(items)
    if len(a) == 2 and type(a[0]) is SymStr:
        return a[0].encode()
    return f(*a, **k)


@handles(min, max)
def _minmax(f, *a, **k):
    if k or (len(a) == 1):
        return f(*a, **k)
    if not any(issubclass(type(x), Sym) for x in a) or not all(sym._isnum(x) for x in a):
        return f(*a, **k)
    r = a[0]
    for x in a[1:]:
        r = sym.Ite(x < r, x, r) if f is min else sym.Ite(x > r, x, r)
    return r


@handles(round)
def _round(f, *a, **k):
    x = a[0] if a else None
    if type(x) in (SymReal, SymInt, sym.SymByte):
        n = a[1] if len(a) > 1 else k.get("ndigits")
        return sym.round_real(x, n)
    return f(*a, **k)


@handles(len)
def _len(f, *a, **k):
    return f(*a)


@handles(abs)
def _abs(f, *a):
    return f(*a)


@handles(datetime.timedelta)
def _td(f, *a, **k):
    if has_sym(a, 1) or has_sym(list(k.values()), 1):
        unit = {
            "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1,
            "milliseconds": "1/1000", "microseconds": "1/1000000", "weeks": 604800,
        }
        names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        args = dict(zip(names, a)) | k
        e = sym.z3.RealVal(0)
        for n, v in args.items():
            e = e + sym.toreal(sym.num(v)) * sym.z3.RealVal(str(unit[n]))
        return SymTD(sym.z3.simplify(e))
    return f(*a, **k)


@handles(datetime.datetime)
def _dtm(f, *a, **k):
    if has_sym(a, 1) or has_sym(list(k.values()), 1):
        return sym.make_datetime(f, *a, **k)
    return f(*a, **k)


@handles(isinstance)
def _isinst(f, *a):
    return f(*a)


@handles(binascii.crc32, zlib.crc32)
def _crc32(f, data, start=0):
    if type(data) is not SymBytes or issubclass(type(start), Sym):
        return f(data, start)
    return sym.crc32(data.items, start)


@handles(struct.pack)
def _pack(f, *a):
    if not has_sym(a, 1):
        return f(*a)
    return s_pack(a[0], a[1:])


@handles(struct.unpack)
def _unpack(f, *a):
    if type(a[1]) is not SymBytes:
        return f(*a)
    return s_unpack(a[0], a[1])


SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def _fmt(fmt):
    fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
    order = "big" if fmt[:1] in ">!" else "little"
    if fmt[:1] in "<>!=@":
        fmt = fmt[1:]
    out, n = [], ""
    for c in fmt:
        if c.isdigit():
            n += c
            continue
        if c == "s":
            out.append(("s", int(n or 1)))
        elif c == "x":
            out.append(("x", int(n or 1)))
        else:
            out.extend([(c, SIZES[c])] * int(n or 1))
        n = ""
    return order, out


def s_pack(fmt, args):
    order, items = _fmt(fmt)
    out, args = [], list(args)
    for c, n in items:
        if c == "x":
            out.extend([0] * n)
            continue
        v = args.pop(0)
        if c == "s":
            v = list(v)[:n]
            out.extend(v + [0] * (n - len(v)))
        else:
            try:
                b = (
                    sym.int_to_bytes(v, n, order, c.islower())
                    if issubclass(type(v), Sym)
                    else int(v).to_bytes(n, order, signed=c.islower())
                )
            except OverflowError as ex:
                raise struct.error(str(ex)) from ex
            out.extend(list(b))
    return SymBytes.of(out)


def s_unpack(fmt, data):
    order, items = _fmt(fmt)
    if sum(n for _, n in items) != len(data):
        raise struct.error("unpack requires a buffer of a different size")
    pos, out = 0, []
    for c, n in items:
        chunk = data[pos : pos + n]
        pos += n
        if c == "x":
            continue
        if c == "s":
            out.append(chunk)
        elif type(chunk) is SymBytes:
            out.append(sym.bytes_to_int(chunk.items, order, c.islower()))
        else:
            out.append(int.from_bytes(chunk, order, signed=c.islower()))
    return tuple(out)


@handles(int.from_bytes)
def _from_bytes(f, *a, **k):
    if type(a[0]) is SymBytes:
        return sym.bytes_to_int(a[0].items, a[1] if len(a) > 1 else k.get("byteorder", "big"), k.get("signed", False))
    return f(*a, **k)


try:
    import orjson

    @handles(orjson.dumps)
    def _dumps(f, *a, **k):
        if has_sym(a[0], 12):
            return boxed(a[0])
        return f(*a, **k)

    @handles(orjson.loads)
    def _loads(f, *a, **k):
        x = a[0]
        if type(x) in (BoxedStr, BoxedBytes):
            return freeze(x.obj)
        if issubclass(type(x), Sym):
            return f(x.conc())
        return f(*a, **k)
except ImportError:
    pass

import json as _json


@handles(_json.dumps)
def _jdumps(f, *a, **k):
    if has_sym(a[0], 12):
        return boxed(a[0]).decode()
    return f(*a, **k)


@handles(_json.loads)
def _jloads(f, *a, **k):
    x = a[0]
    if type(x) in (BoxedStr, BoxedBytes):
        return freeze(x.obj)
    return f(*a, **k)


def _b64char(v):
    import z3

    n = z3.BitVecVal
    return sym.mkbyte(z3.If(z3.ULT(v, 26), v + n(65, 8), z3.If(z3.ULT(v, 52), v + n(71, 8), z3.If(z3.ULT(v, 62), v - n(4, 8), z3.If(v == 62, n(43, 8), n(47, 8))))))


@handles(base64.b64encode)
def _b64encode(f, s, altchars=None):
    import z3

    if type(s) is not SymBytes or altchars is not None:
        return f(s, altchars)
    out, zero = [], z3.BitVecVal(0, 8)
    sh, six = z3.LShR, z3.BitVecVal(63, 8)
    for i in range(0, len(s.items), 3):
        part = [z3.BitVecVal(x, 8) if type(x) is int else sym.bv8(x) for x in s.items[i : i + 3]]
        n = len(part)
        b0, b1, b2 = part + [zero] * (3 - n)
        q = [sh(b0, 2), ((b0 << 4) | sh(b1, 4)) & six, ((b1 << 2) | sh(b2, 6)) & six, b2 & six]
        out += [_b64char(v) for v in q[: n + 1]] + [61] * (3 - n)
    return SymBytes.of(out)


@handles(base64.b64decode)
def _b64decode(f, s, altchars=None, validate=False):
    import z3

    if type(s) not in (SymBytes, SymStr):
        return f(s, altchars, validate)
    items = list(s.items)
    pad = 0
    while pad < 2 and items and type(items[-1]) is int and items[-1] == 61:
        items.pop()
        pad += 1
    bs = [z3.BitVecVal(x, 8) if type(x) is int else sym.bv8(x) for x in items]
    n = z3.BitVecVal
    rng = lambda c, lo, hi: z3.And(z3.UGE(c, lo), z3.ULE(c, hi))  # noqa: E731
    ok = z3.And(*[z3.Or(rng(c, 65, 90), rng(c, 97, 122), rng(c, 48, 57), c == 43, c == 47) for c in bs])
    if altchars is not None or (len(items) + pad) % 4 or not bool(mkbool(ok)):
        return f(s.conc(), altchars, validate)
    vs = [z3.If(rng(c, 65, 90), c - n(65, 8), z3.If(rng(c, 97, 122), c - n(71, 8), z3.If(rng(c, 48, 57), c + n(4, 8), z3.If(c == 43, n(62, 8), n(63, 8))))) for c in bs]
    out = []
    for i in range(0, len(vs), 4):
        q = vs[i : i + 4]
        k = len(q)
        q += [n(0, 8)] * (4 - k)
        three = [(q[0] << 2) | z3.LShR(q[1], 4), (q[1] << 4) | z3.LShR(q[2], 2), (q[2] << 6) | q[3]]
        out += [sym.mkbyte(x) for x in three[: k - 1]]
    return SymBytes.of(out)


import re as _re
from re import _constants as _rc
from re import _parser as _rp

_classes: dict = {}


def _char_class(pattern):
    """The code points up to U+00FF a pattern of exactly one character stands for (None: not such a pattern)."""
    if pattern not in _classes:
        p = _rp.parse(pattern)
        one = len(p) == 1 and p[0][0] in (_rc.IN, _rc.LITERAL, _rc.NOT_LITERAL, _rc.ANY) and p.state.groups == 1
        _classes[pattern] = {i for i in range(256) if _re.fullmatch(pattern, chr(i))} if one else None
    return _classes[pattern]


@handles(_re.sub)
def _resub(f, pattern, repl, string, *a, **k):
    if type(string) is not SymStr:
        return f(pattern, repl, string, *a, **k)
    cls = _char_class(pattern) if type(pattern) is str and not a and not k else None
    if cls is None or type(repl) is not str or "\\" in repl:
        return f(pattern, repl, string.conc(), *a, **k)
    runs = []
    for i in sorted(cls):
        if runs and runs[-1][1] == i - 1:
            runs[-1][1] = i
        else:
            runs.append([i, i])
    out = []
    for i in string.items:
        if type(i) is int:
            out += [ord(x) for x in (repl if _re.fullmatch(pattern, chr(i)) else chr(i))]
            continue
        if all(x in cls for x in range(i.lo, i.hi + 1)):
            out += [ord(x) for x in repl]
            continue
        hit = sym.z3.Or(*[sym.z3.And(sym.z3.UGE(i.b, lo), sym.z3.ULE(i.b, hi)) for lo, hi in runs]) if runs else sym.z3.BoolVal(False)
        if len(repl) == 1 and ord(repl) < 256:
            out.append(sym.mkbyte(sym.z3.If(hit, sym.z3.BitVecVal(ord(repl), 8), i.b)))
        elif bool(sym.mkbool(hit)):
            out += [ord(x) for x in repl]
        else:
            out.append(i)
    return SymStr.of(out) if out else ""


import urllib.parse as _up


def _quote(f, string, safe="/", *a, plus=False, **k):
    if type(string) is not SymStr or a or k:
        return f(string, safe, *a, **k)
    out = []
    for c in string.items:
        if type(c) is int:
            out += SymStr.codes(f(chr(c), safe))
            continue
        plain = sym.Or(sym.And(c >= 48, c <= 57), sym.And(c >= 65, c <= 90), sym.And(c >= 97, c <= 122), *[c == ord(x) for x in "_.-~" + safe])
        if bool(plain):
            out.append(c)
        elif plus and bool(c == 32):
            out.append(43)
        else:
            hi, lo = sym._hexitems([c])
            out += [37] + [x - 32 if bool(x >= 97) else x for x in (hi, lo)]
    return SymStr.of(out)


@handles(_up.quote)
def _q(f, string, safe="/", *a, **k):
    return _quote(f, string, safe, *a, **k)


@handles(_up.quote_plus)
def _qp(f, string, safe="", *a, **k):
    return _quote(f, string, safe, *a, plus=True, **k)


def _dt_fromtimestamp(cls, ts, tz=None):
    return SymDT(sym.toreal(sym.num(ts)), tz)


BUILTIN = type(len)
BUILTIN_METHOD = type(__import__('zoneinfo').ZoneInfo('UTC').utcoffset)
LRU = type(functools.lru_cache(len))
METHODW = type("".__str__)
METHOD_DESC = type(str.join)


def s_call(f, /, *a, **k):
    t = type(f)
    if t is BUILTIN or t is BUILTIN_METHOD:
        s = f.__self__
        if s is not None and type(s) is not type(sys):
            h = _bound(f, s, a, k)
            if h is not MISSING:
                return h
    try:
        h = H.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(f, *a, **k)
    if t is enum.EnumMeta or isinstance(f, enum.EnumMeta):
        if len(a) == 1 and not k:
            x = a[0]
            if type(x) in (SymInt, sym.SymByte):
                return sym.enum_from(f, x)
            if type(x) is SymEnum and x.cls is f:
                return x
            if type(x) is SymStr:
                for m in f:
                    if isinstance(m.value, str) and bool(sym.truth(x == m.value)):
                        return m
                raise ValueError(f"{x} is not a valid {f.__qualname__}")
    if t is LRU and (has_sym(a, 2) or has_sym(k, 2)):
        return f.__wrapped__(*a, **k)
    if t is BUILTIN and a and f.__self__ is not None:
        # other C functions: concretise text/bytes arguments
        if any(type(x) in (SymStr, SymBytes) for x in a) and type(f.__self__) is type(sys):
            if getattr(f, "__module__", "") not in ("builtins", "_operator"):
                a = tuple(x.conc() if type(x) in (SymStr, SymBytes) else x for x in a)
    return f(*a, **k)


def _bound(f, s, a, k):
    n = f.__name__
    st = type(s)
    if st is str or st is BoxedStr:
        if n == "join" and len(a) == 1:
            items = list(a[0])
            if any(type(i) is SymStr for i in items):
                return sym.join(s, items)
            return f(items)
        if n == "format" and (any(type(x) is SymStr for x in a) or any(type(x) is SymStr for x in k.values())):
            return s_format(str(s), a, k)
        if n in ("startswith", "endswith", "find", "count", "replace", "split", "index", "removeprefix", "removesuffix") and a and type(a[0]) is SymStr:
            return getattr(SymStr(SymStr.codes(s)), n)(*a, **k)
        return MISSING
    if st is bytes:
        if n == "join" and len(a) == 1:
            items = list(a[0])
            if any(type(i) is SymBytes for i in items):
                out = []
                for i, p in enumerate(items):
                    if i:
                        out.extend(s)
                    out.extend(list(p))
                return SymBytes.of(out)
            return f(items)
        return MISSING
    if isinstance(s, dict):
        if n in ("get", "pop", "setdefault") and a and issubclass(type(a[0]), Sym):
            key = resolve_key(s, a[0])
            if key is MISSING:
                if n == "get":
                    return a[1] if len(a) > 1 else None
                if n == "pop":
                    if len(a) > 1:
                        return a[1]
                    raise KeyError(a[0])
                return MISSING
            return f(key, *a[1:], **k)
        return MISSING
    if isinstance(s, datetime.tzinfo):
        if n in ("utcoffset", "tzname") and a and type(a[0]) is SymDT:
            return getattr(SymDT.wall(a[0].w, s, sym.SymBool(a[0]._fold)), n)()
        return MISSING
    if isinstance(s, type):
        if issubclass(s, datetime.datetime):
            if n in ("fromtimestamp", "utcfromtimestamp") and a and issubclass(type(a[0]), Sym):
                tz = a[1] if len(a) > 1 else k.get("tz")
                return _dt_fromtimestamp(s, a[0], tz)
            if n == "now" and sym.CUR is not None and getattr(sym.CUR, "now", None) is not None:
                tz = a[0] if a else k.get("tz")
                return SymDT(sym.toreal(sym.num(sym.CUR.now())), tz)
        if s is int and n == "from_bytes" and type(a[0]) is SymBytes:
            return _from_bytes(f, *a, **k)
        return MISSING
    if st is struct.Struct:
        if n == "pack" and has_sym(a, 1):
            return s_pack(s.format, a)
        if n == "unpack" and type(a[0]) is SymBytes:
            return s_unpack(s.format, a[0])
        if n == "unpack_from" and type(a[0]) is SymBytes:
            off = a[1] if len(a) > 1 else 0
            return s_unpack(s.format, a[0][off : off + s.size])
        return MISSING
    if n in ("append", "extend", "update", "add") and st is bytearray and has_sym(a, 1):
        return MISSING
    return MISSING


def s_enter(q):
    ENTERED.add(q)


HELPERS = {
    "_S_call_": s_call,
    "_S_in_": s_in,
    "_S_notin_": s_notin,
    "_S_is_": s_is,
    "_S_isnot_": s_isnot,
    "_S_getitem_": s_getitem,
    "_S_fstr_": s_fstr,
    "_S_mod_": s_mod,
    "_S_set_": s_set,
    "_S_enter_": s_enter,
}


# ---------------------------------------------------------------------------


class _FixSpec(ast.NodeTransformer):
    pass


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as fh:
            src = fh.read()
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__.update(HELPERS)
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path) as fh:
            return fh.read()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, packages=("kasa", "devtools"), block=("kasa_crypt",)):
        self.root, self.packages, self.block = root, packages, block

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.block:
            raise ImportError(f"{fullname} blocked for symbolic execution")
        if fullname.split(".")[0] not in self.packages:
            return None
        rel = fullname.replace(".", "/")
        for p, pkg in (
            (os.path.join(self.root, rel, "__init__.py"), True),
            (os.path.join(self.root, rel + ".py"), False),
        ):
            if os.path.isfile(p):
                spec = importlib.util.spec_from_file_location(
                    fullname,
                    p,
                    loader=Loader(fullname, p, pkg),
                    submodule_search_locations=[os.path.dirname(p)] if pkg else None,
                )
                return spec
        return None


def install(root="/repo"):
    sys.meta_path.insert(0, Finder(root))


# -- module state reset --------------------------------------------------------


class StateKeeper:
    """Restore class/module level containers and caches between paths."""

    def __init__(self, package="kasa"):
        self.saved = []
        self.caches = []
        self.attrs = []
        seen = set()
        for name, m in list(sys.modules.items()):
            if m is None or not (name == package or name.startswith(package + ".")):
                continue
            for k, v in list(vars(m).items()):
                self._keep(v, seen)
                if isinstance(v, type) and v.__module__.startswith(package):
                    scal = {}
                    for ck, cv in list(vars(v).items()):
                        self._keep(cv, seen)
                        if not ck.startswith("__") and (
                            cv is None or isinstance(cv, (int, str, float, bool))
                        ):
                            scal[ck] = cv
                    if id(v) not in seen and not isinstance(v, enum.EnumMeta):
                        seen.add(id(v))
                        self.attrs.append((v, scal, set(vars(v))))

    def _keep(self, v, seen):
        if id(v) in seen:
            return
        if type(v) in (dict, list, set):
            seen.add(id(v))
            self.saved.append((v, v.copy()))
        elif hasattr(v, "cache_clear") and callable(v.cache_clear):
            seen.add(id(v))
            self.caches.append(v)

    def restore(self):
        for v, c in self.saved:
            if type(v) is list:
                if len(v) != len(c) or any(x is not y for x, y in zip(v, c)):
                    v[:] = c
            elif len(v) != len(c) or (
                type(v) is dict
                and any(v.get(kk, MISSING) is not vv for kk, vv in c.items())
            ):
                v.clear()
                v.update(c)
        for cls, scal, names in self.attrs:
            d = vars(cls)
            for k, val in scal.items():
                if d.get(k, MISSING) is not val:
                    setattr(cls, k, val)
