"""Symbolic proxy values and the path explorer.

The real kasa code is executed by CPython; values that are symbolic are proxy
objects holding z3 terms.  When the code needs a concrete truth value (or a
concrete hash / index), the *path* is asked: z3 decides which outcomes are
feasible under the path condition, one is taken now and the others are queued
and explored by re-execution.  A property is an assertion over the proxies; on
every path z3 is asked for a model of its negation.
"""

from __future__ import annotations

import os
import sys
import time

_mono = time.monotonic
from fractions import Fraction

try:
    import z3
except ImportError:  # pragma: no cover
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3


class PathAbort(BaseException):
    """Stop executing this path (infeasible assumption or budget)."""


class PathStop(BaseException):
    """Scenario finished early on purpose (e.g. after a definite violation)."""


CUR: "Path | None" = None
SOLVER_TIMEOUT_MS = 20_000


def cur() -> "Path":
    if CUR is None:
        raise RuntimeError("no symbolic path active")
    return CUR


# --------------------------------------------------------------------------
# terms


def _rv(x):
    """Python number -> z3 term (floats by their decimal repr)."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise OverflowError("non-finite float")
        return z3.RealVal(repr(float(x)))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    raise TypeError(type(x))


def is_sym(x) -> bool:
    return isinstance(x, Sym) if type(x) in _SYMTYPES else issubclass(type(x), Sym)


_SYMTYPES: set = set()


def has_sym(x, depth=6) -> bool:
    if issubclass(type(x), Sym):
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (str, int, float, bool, bytes, type(None)):
        return False
    if t.__name__ in ("BoxedStr", "BoxedBytes") and x.obj is not None:
        return True
    if issubclass(t, dict):
        return any(has_sym(v, depth - 1) or has_sym(k, 1) for k, v in x.items())
    if issubclass(t, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    return False


def simp(e):
    return z3.simplify(e)


def mkbool(e):
    """z3 Bool -> SymBool or concrete bool when it simplifies to a constant."""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bterm(x):
    """Anything boolean -> z3 Bool (no fork)."""
    t = type(x)
    if t is SymBool:
        return x.e
    if issubclass(t, Sym):
        x = truth(x)
        return x.e if type(x) is SymBool else z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def truth(x):
    """Symbolic truthiness without forking where possible."""
    t = type(x)
    if t is SymBool:
        return x
    if t in (SymInt, SymReal):
        return mkbool(x.e != 0)
    if t is SymEnum:
        return True if not issubclass(x.cls, int) else truth(x.value)
    if t in (SymBytes, SymStr):
        return len(x.items) > 0
    if t is SymTD:
        return mkbool(x.e != 0)
    return bool(x)


def And(*xs):
    return mkbool(z3.And(*[bterm(x) for x in xs])) if xs else True


def Or(*xs):
    return mkbool(z3.Or(*[bterm(x) for x in xs])) if xs else False


def Not(x):
    return mkbool(z3.Not(bterm(x)))


def Implies(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def Iff(a, b):
    return mkbool(bterm(a) == bterm(b))


def Ite(c, a, b):
    """Numeric if-then-else as a term."""
    ct = bterm(c)
    ea, eb = num(a), num(b)
    if z3.is_int(ea) and z3.is_int(eb):
        return mkint(z3.If(ct, ea, eb))
    return mkreal(z3.If(ct, toreal(ea), toreal(eb)))


def num(x):
    """number-like -> z3 arith term."""
    t = type(x)
    if t is SymInt or t is SymReal:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is SymEnum:
        return num(x.value)
    if t is SymTD or t is SymDT:
        return x.e
    return _rv(x)


def toreal(e):
    return e if z3.is_real(e) else z3.ToReal(e)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return float(f)
    return SymReal(e)


_NUMT = (int, float)


def _isnum(x):
    t = type(x)
    return t in (SymInt, SymReal, SymBool) or (
        t is SymEnum and issubclass(x.cls, int)
    ) or (not issubclass(t, Sym) and isinstance(x, (int, float)))


# --------------------------------------------------------------------------


class Sym:
    """Base of all proxies."""

    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return cur().branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.e))
        if _isnum(o):
            return SymInt(num(self)) == o
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return SymInt(num(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(num(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return SymInt(num(self)) - o

    def __lt__(self, o):
        return SymInt(num(self)) < o

    def __le__(self, o):
        return SymInt(num(self)) <= o

    def __gt__(self, o):
        return SymInt(num(self)) > o

    def __ge__(self, o):
        return SymInt(num(self)) >= o

    def __and__(self, o):
        if isinstance(o, bool):
            return And(self, o)
        return int(bool(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return Or(self, o)
        return int(bool(self)) | o

    __ror__ = __or__

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token(self)


class _Num(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, rev=False):
        if not _isnum(o):
            return NotImplemented
        try:
            a, b = self.e, num(o)
        except OverflowError:
            return NotImplemented
        if z3.is_int(a) and z3.is_int(b):
            return mkint(f(b, a) if rev else f(a, b))
        a, b = toreal(a), toreal(b)
        return mkreal(f(b, a) if rev else f(a, b))

    def __add__(self, o):
        if type(o) is SymTD or type(o) is SymDT:
            return NotImplemented
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return mkint(-self.e) if z3.is_int(self.e) else mkreal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        e = z3.If(self.e >= 0, self.e, -self.e)
        return mkint(e) if z3.is_int(e) else mkreal(e)

    def _div(self, o, rev=False):
        if not _isnum(o):
            return NotImplemented
        a, b = (num(o), self.e) if rev else (self.e, num(o))
        zero = mkbool(b == 0)
        if zero is True or (type(zero) is SymBool and bool(zero)):
            raise ZeroDivisionError("division by zero")
        return mkreal(toreal(a) / toreal(b))

    def __truediv__(self, o):
        return self._div(o)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def _fdiv(self, o, rev, want):
        if not _isnum(o):
            return NotImplemented
        a, b = (num(o), self.e) if rev else (self.e, num(o))
        zero = mkbool(b == 0)
        if zero is True or (type(zero) is SymBool and bool(zero)):
            raise ZeroDivisionError("division by zero")
        if z3.is_int(a) and z3.is_int(b):
            neg = mkbool(b < 0)
            if neg is True or (type(neg) is SymBool and bool(neg)):
                a, b = -a, -b
                q = a / b
                m = -(a - q * b)
            else:
                q = a / b
                m = a - q * b
            return mkint(q) if want == "q" else mkint(m)
        a, b = toreal(a), toreal(b)
        q = z3.ToInt(a / b)  # floor for reals
        if want == "q":
            return mkreal(z3.ToReal(q))
        return mkreal(a - z3.ToReal(q) * b)

    def __floordiv__(self, o):
        return self._fdiv(o, False, "q")

    def __rfloordiv__(self, o):
        return self._fdiv(o, True, "q")

    def __mod__(self, o):
        return self._fdiv(o, False, "m")

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._fdiv(o, True, "m")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if type(o) is int and o >= 0:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self._conc() ** (o._conc() if isinstance(o, _Num) else o)

    def __rpow__(self, o):
        return o ** self._conc()

    def _cmp(self, o, f):
        if not _isnum(o):
            return NotImplemented
        try:
            b = num(o)
        except OverflowError:
            return f(0.0, o)
        a = self.e
        if not (z3.is_int(a) and z3.is_int(b)):
            a, b = toreal(a), toreal(b)
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return cur().branch(self.e != 0)

    def _conc(self):
        return cur().concretize(self.e)

    def __hash__(self):
        return hash(self._conc())

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token(self)

    def __float__(self):
        return float(self._conc())

    def __int__(self):
        return int(self._conc())

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)


def floor(x):
    if z3.is_int(x.e):
        return x
    return mkint(z3.ToInt(x.e))


def trunc(x):
    if z3.is_int(x.e):
        return x
    fl = z3.ToInt(x.e)
    return mkint(
        z3.If(z3.And(x.e < 0, z3.ToReal(fl) != x.e), fl + 1, fl)
    )


class SymInt(_Num):
    __slots__ = ()

    __class__ = property(lambda self: int)

    def __index__(self):
        return self._conc()

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self._conc().bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    def _bv(self, o, f, rev=False):
        if not isinstance(o, int):
            return NotImplemented
        w = 64
        a = z3.Int2BV(self.e, w)
        b = z3.Int2BV(num(o), w)
        if rev:
            a, b = b, a
        return mkint(z3.BV2Int(f(a, b), is_signed=True))

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self._bv(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bv(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bv(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __rlshift__(self, o):
        return o << self._conc()

    def __rrshift__(self, o):
        return o >> self._conc()

    def __invert__(self):
        return -self - 1


class SymReal(_Num):
    __slots__ = ()

    __class__ = property(lambda self: float)

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __round__(self, n=None):
        return round_real(self, n)

    @property
    def real(self):
        return self


def round_real(x, n=None):
    """round-half-even on exact reals."""
    if z3.is_int(x.e) and (n is None or n >= 0):
        return x
    scale = z3.RealVal(10) ** 0 if not n else z3.RealVal(str(Fraction(10) ** n))
    y = toreal(x.e) * scale
    fl = z3.ToInt(y)
    frac = y - z3.ToReal(fl)
    r = z3.If(
        frac > z3.RealVal("1/2"),
        fl + 1,
        z3.If(
            frac < z3.RealVal("1/2"), fl, z3.If(fl % 2 == 0, fl, fl + 1)
        ),
    )
    if n is None:
        return mkint(r)
    return mkreal(z3.ToReal(r) / scale)


class SymEnum(Sym):
    """A member of an Enum class selected by a symbolic value."""

    __slots__ = ("cls", "value")

    def __init__(self, cls, value):
        self.cls = cls
        self.value = value

    __class__ = property(lambda self: self.cls)

    def conc(self):
        v = cur().concretize(self.value.e)
        return self.cls(v)

    @property
    def name(self):
        # big enums (error codes): the name is only used in messages
        if len(self.cls) > CONC_CAP:
            return token(self)
        return self.conc().name

    _name_ = name

    @property
    def _value_(self):
        return self.value

    def __eq__(self, o):
        if type(o) is SymEnum:
            return self.cls is o.cls and self.value == o.value
        if isinstance(o, self.cls):
            return self.value == o.value
        if issubclass(self.cls, int) and _isnum(o):
            return self.value == o
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(cur().concretize(self.e))

    def __bool__(self):
        if issubclass(self.cls, int):
            return bool(truth(self.value))
        return True

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token(self)

    def __index__(self):
        return self.value._conc()

    __int__ = __index__

    def __lt__(self, o):
        return self.value < o

    def __le__(self, o):
        return self.value <= o

    def __gt__(self, o):
        return self.value > o

    def __ge__(self, o):
        return self.value >= o

    def __getattr__(self, n):
        return getattr(self.conc(), n)


def enum_from(cls, x):
    """cls(x) for a symbolic int x: SymEnum or ValueError."""
    vals = sorted({m.value for m in cls if isinstance(m.value, int)})
    if cls._missing_.__func__ is not __import__("enum").Enum._missing_.__func__:
        return cls(x._conc())
    if bool(in_set(x, vals)):
        # a single feasible member -> concrete
        return SymEnum(cls, x)
    raise ValueError(f"{token(x)} is not a valid {cls.__qualname__}")


def in_set(x, vals):
    return Or(*[x == v for v in vals])


# --------------------------------------------------------------------------
# sequences (concrete length, symbolic elements as 8-bit vectors)


def bv8(x):
    if isinstance(x, z3.BitVecRef):
        return x
    if type(x) is SymByte or isinstance(x, SymByte):
        return x.b
    if type(x) is SymInt:
        return z3.Extract(7, 0, z3.Int2BV(x.e, 16))
    return z3.BitVecVal(int(x), 8)


class SymByte(SymInt):
    """An int 0..255 kept as an 8-bit vector."""

    __slots__ = ("b", "lo", "hi")  # lo..hi: its declared range, which is a constraint of the path

    def __init__(self, b, lo=0, hi=255):
        self.b = b
        self.e = z3.BV2Int(b)
        self.lo, self.hi = lo, hi

    def __xor__(self, o):
        if isinstance(o, int) and (type(o) is SymByte or (type(o) is int and 0 <= o < 256)):
            return mkbyte(self.b ^ bv8(o))
        return SymInt.__xor__(self, o)

    __rxor__ = __xor__

    def __and__(self, o):
        if isinstance(o, int) and (type(o) is SymByte or (type(o) is int and 0 <= o < 256)):
            return mkbyte(self.b & bv8(o))
        return SymInt.__and__(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and (type(o) is SymByte or (type(o) is int and 0 <= o < 256)):
            return mkbyte(self.b | bv8(o))
        return SymInt.__or__(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        if type(o) is SymByte:
            return mkbool(self.b == o.b)
        if type(o) is int:
            return mkbool(self.b == o) if self.lo <= o <= self.hi else False
        return SymInt.__eq__(self, o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SymInt.__hash__

    def __bool__(self):
        return cur().branch(self.b != 0)


def mkbyte(b):
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return b.as_long()
    return SymByte(b)


def _item(x):
    """element -> int or SymByte"""
    return x


class _Seq(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __len__(self):
        return len(self.items)

    def _eqitems(self, o):
        if len(self.items) != len(o):
            return False
        return And(*[a == b for a, b in zip(self.items, o)]) if self.items else True

    def __hash__(self):
        return hash(cur().concretize(self.e))

    def conc_items(self):
        return [x if type(x) is int else cur().concretize_bv(x.b) for x in self.items]

    def _idx(self, k):
        if isinstance(k, slice):
            return slice(
                *[v if v is None or type(v) is int else v.__index__() for v in (k.start, k.stop, k.step)]
            )
        return k.__index__()

    def _find(self, sub, start=0, end=None):
        n = len(sub)
        end = len(self.items) if end is None else min(end, len(self.items))
        for i in range(start, end - n + 1):
            if bool(And(*[self.items[i + j] == sub[j] for j in range(n)]) if n else True):
                return i
        return -1

    def __ne__(self, o):
        return Not(self == o)


class SymBytes(_Seq):
    __slots__ = ()

    __class__ = property(lambda self: bytes)

    @staticmethod
    def of(x):
        """Build bytes from items; concrete when possible."""
        x = list(x)
        if all(type(i) is int for i in x):
            return bytes(x)
        return SymBytes(x)

    def conc(self):
        return bytes(self.conc_items())

    def __bytes__(self):
        return self.conc()

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return self._eqitems(list(o))
        return False

    __hash__ = _Seq.__hash__

    def __getitem__(self, k):
        k = self._idx(k)
        if isinstance(k, slice):
            return SymBytes.of(self.items[k])
        return self.items[k]

    def __setitem__(self, k, v):
        """Only on the copy that bytearray(..) makes."""
        k = self._idx(k)
        self.items = list(self.items)
        if isinstance(k, slice):
            self.items[k] = list(v)
        else:
            self.items[k] = mkbyte(bv8(v)) if issubclass(type(v), Sym) else v

    def __iter__(self):
        return iter(self.items)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes.of(list(self.items) + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes.of(list(o) + list(self.items))
        return NotImplemented

    def __contains__(self, o):
        if isinstance(o, int):
            return bool(Or(*[i == o for i in self.items]))
        return self._find(list(o)) >= 0

    def find(self, sub, start=0, end=None):
        return self._find(list(sub), start, end)

    def startswith(self, p):
        return len(self) >= len(p) and self[: len(p)] == p

    def endswith(self, p):
        return len(self) >= len(p) and self[len(self) - len(p) :] == p

    def decode(self, encoding="utf-8", errors="strict"):
        ascii_ok = And(*[(i < 128) if type(i) is int else mkbool(z3.ULT(i.b, 128)) for i in self.items])
        if bool(ascii_ok):
            return SymStr.of(self.items)
        if encoding.lower().replace("_", "-") in ("utf-8", "utf8"):
            # symbolic characters up to U+00FF; anything else is resolved to one example
            out, k = [], 0
            while k < len(self.items):
                i = self.items[k]
                n = self.items[k + 1] if k + 1 < len(self.items) else None
                if type(i) is int:
                    size = 1 if i < 0x80 else 2 if 0xC2 <= i < 0xE0 else 3 if 0xE0 <= i < 0xF0 else 4
                    part = self.items[k : k + size]
                    if not all(type(b) is int for b in part):
                        break
                    out.append(ord(bytes(part).decode(encoding, errors)) if errors == "strict" else None)
                    if out[-1] is None:
                        break
                    k += size
                elif bool(truth(mkbool(z3.ULT(i.b, 128)))):
                    out.append(i)
                    k += 1
                elif n is not None and bool(truth(mkbool(z3.And(z3.UGE(i.b, 0xC2), z3.ULE(i.b, 0xC3), z3.UGE(bv8(n), 0x80), z3.ULE(bv8(n), 0xBF))))):
                    out.append(mkbyte((i.b << 6) | (bv8(n) & 0x3F)))
                    k += 2
                else:
                    break
            if k == len(self.items):
                return SymStr.of(out)
        return bytes(self.conc()).decode(encoding, errors)

    def hex(self):
        return SymStr.of(_hexitems(self.items))

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token(self)


def _hexdigit(n4):
    return mkbyte(
        z3.If(z3.ULT(n4, 10), n4 + z3.BitVecVal(48, 8), n4 + z3.BitVecVal(87, 8))
    )


def _hexitems(items):
    out = []
    for i in items:
        if type(i) is int:
            out.extend(f"{i:02x}".encode())
        else:
            out.append(_hexdigit(z3.LShR(i.b, 4)))
            out.append(_hexdigit(i.b & 15))
    return out


class SymStr(_Seq):
    __slots__ = ()

    __class__ = property(lambda self: str)

    @staticmethod
    def of(x):
        x = [ord(i) if type(i) is str else i for i in x]
        if all(type(i) is int for i in x):
            return "".join(map(chr, x))
        return SymStr(x)

    def conc(self):
        return "".join(map(chr, self.conc_items()))

    @staticmethod
    def codes(s):
        return list(s.items) if type(s) is SymStr else [ord(c) for c in s]

    def __eq__(self, o):
        if isinstance(o, str):
            return self._eqitems(SymStr.codes(o))
        return False

    __hash__ = _Seq.__hash__

    def __getitem__(self, k):
        k = self._idx(k)
        if isinstance(k, slice):
            return SymStr.of(self.items[k])
        return SymStr.of([self.items[k]])

    def __iter__(self):
        return iter([SymStr.of([i]) for i in self.items])

    def __add__(self, o):
        if isinstance(o, str):
            return SymStr.of(list(self.items) + SymStr.codes(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr.of(SymStr.codes(o) + list(self.items))
        return NotImplemented

    def __mul__(self, n):
        return SymStr.of(list(self.items) * n)

    def __contains__(self, o):
        return self._find(SymStr.codes(o)) >= 0

    def find(self, sub, start=0, end=None):
        return self._find(SymStr.codes(sub), start, end)

    def startswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.startswith(q) for q in p])
        return len(self) >= len(p) and self[: len(p)] == p

    def endswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.endswith(q) for q in p])
        return len(self) >= len(p) and self[len(self) - len(p) :] == p

    def removeprefix(self, p):
        return self[len(p):] if bool(truth(self.startswith(p))) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if p and bool(truth(self.endswith(p))) else self

    def encode(self, encoding="utf-8", errors="strict"):
        """Exact for symbolic characters up to U+00FF and any others."""
        if bool(And(*[(i < 128) if type(i) is int else mkbool(z3.ULT(i.b, 128)) for i in self.items])):
            return SymBytes.of(self.items)
        enc = encoding.lower().replace("_", "-")
        out = []
        for i in self.items:
            if type(i) is int:
                out += list(chr(i).encode(encoding, errors))
            elif enc in ("latin-1", "iso-8859-1", "latin1") or bool(truth(mkbool(z3.ULT(i.b, 128)))):
                out.append(i)
            elif enc in ("utf-8", "utf8"):
                out += [mkbyte(z3.LShR(i.b, 6) | 0xC0), mkbyte((i.b & 0x3F) | 0x80)]
            else:
                return self.conc().encode(encoding, errors)
        return SymBytes.of(out)

    def _case(self, method, f):
        """Exact: characters beyond ASCII are made concrete, as their case has no simple rule."""
        out = []
        for i in self.items:
            if type(i) is not int and getattr(i, "hi", 255) >= 128 and not bool(truth(mkbool(z3.ULT(i.b, 128)))):
                i = ord(SymStr([i]).conc())
            out += [ord(x) for x in getattr(chr(i), method)()] if type(i) is int else [f(i)]
        return SymStr.of(out)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep) :]

    def lower(self):
        def f(i):
            up = z3.And(z3.UGE(i.b, 65), z3.ULE(i.b, 90))
            return mkbyte(z3.If(up, i.b + 32, i.b))

        return self._case("lower", f)

    def upper(self):
        def f(i):
            lo = z3.And(z3.UGE(i.b, 97), z3.ULE(i.b, 122))
            return mkbyte(z3.If(lo, i.b - 32, i.b))

        return self._case("upper", f)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.conc().split(sep, maxsplit)
        sc = SymStr.codes(sep)
        out, rest = [], self.items
        while maxsplit != 0:
            i = SymStr(rest)._find(sc) if rest else -1
            if i < 0:
                break
            out.append(SymStr.of(rest[:i]))
            rest = rest[i + len(sc) :]
            maxsplit -= 1
        out.append(SymStr.of(rest))
        return out

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        r = parts[0]
        for p in parts[1:]:
            r = SymStr.of(SymStr.codes(r) + SymStr.codes(b) + SymStr.codes(p))
        return r

    def strip(self, *a):
        return self.conc().strip(*a)

    def isdigit(self):
        if not self.items:
            return False
        return And(*[And(i >= 48, i <= 57) for i in self.items])

    def join(self, it):
        return join(self, it)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.conc(), n)

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token(self)


def join(sep, it):
    out = []
    for k, p in enumerate(it):
        if not isinstance(p, str):
            raise TypeError(f"sequence item {k}: expected str instance")
        if k:
            out.extend(SymStr.codes(sep))
        out.extend(SymStr.codes(p))
    return SymStr.of(out)


def int_to_bytes(x, length, byteorder="big", signed=False):
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    inner = x.e.arg(0) if not signed and z3.is_app(x.e) and x.e.decl().kind() == z3.Z3_OP_BV2INT else None
    if inner is not None and inner.size() <= 8 * length:
        v = z3.ZeroExt(8 * length - inner.size(), inner) if inner.size() < 8 * length else inner
        out = [mkbyte(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(length)]
        return SymBytes.of(out if byteorder != "big" else out[::-1])
    if not bool(And(x >= lo, x <= hi)):
        raise OverflowError("int too big to convert")
    v = z3.Int2BV(x.e, 8 * length)
    out = [mkbyte(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(length)]
    if byteorder == "big":
        out.reverse()
    return SymBytes.of(out)


def crc32(items, start=0):
    """Exact: crc32 is affine over the bits of a message of known length."""
    import binascii

    items = list(items)
    zero = bytearray(i if type(i) is int else 0 for i in items)
    base = binascii.crc32(zero, start)
    e = z3.BitVecVal(base, 32)
    for k, i in enumerate(items):
        if type(i) is int:
            continue
        for bit in range(8):
            zero[k] = 1 << bit
            d = binascii.crc32(zero, start) ^ base
            zero[k] = 0
            e = e ^ z3.If(z3.Extract(bit, bit, bv8(i)) == 1, z3.BitVecVal(d, 32), z3.BitVecVal(0, 32))
    return mkint(z3.BV2Int(e))


def bytes_to_int(items, byteorder="big", signed=False):
    items = list(items)
    if byteorder != "big":
        items.reverse()
    e = z3.Concat(*[bv8(i) for i in items]) if len(items) > 1 else bv8(items[0])
    return mkint(z3.BV2Int(e, is_signed=signed))


# --------------------------------------------------------------------------
# time


class SymTD(Sym):
    """timedelta; e = seconds as z3 Real."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        import datetime

        return datetime.timedelta

    @staticmethod
    def term(x):
        if type(x) is SymTD:
            return x.e
        import datetime

        if isinstance(x, datetime.timedelta):
            return z3.RealVal(
                str(Fraction(x.days * 86400 + x.seconds) + Fraction(x.microseconds, 10**6))
            )
        return None

    def total_seconds(self):
        return mkreal(self.e)

    @property
    def seconds(self):
        d = z3.ToInt(self.e / 86400)
        return mkint(z3.ToInt(self.e - z3.ToReal(d) * 86400))

    @property
    def days(self):
        return mkint(z3.ToInt(self.e / 86400))

    @property
    def microseconds(self):
        f = self.e - z3.ToReal(z3.ToInt(self.e))
        return mkint(z3.ToInt(f * 1000000))

    def _c(self, o, f):
        t = SymTD.term(o)
        if t is None:
            return NotImplemented
        return mkbool(f(self.e, t))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(cur().concretize(self.e))

    def __add__(self, o):
        import datetime

        t = SymTD.term(o)
        if t is not None:
            return SymTD(self.e + t)
        if isinstance(o, datetime.datetime):
            return SymDT.of(o) + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        t = SymTD.term(o)
        return NotImplemented if t is None else SymTD(self.e - t)

    def __rsub__(self, o):
        import datetime

        t = SymTD.term(o)
        if t is not None:
            return SymTD(t - self.e)
        if isinstance(o, datetime.datetime):
            return SymDT.of(o) - self
        return NotImplemented

    def __neg__(self):
        return SymTD(-self.e)

    def __abs__(self):
        return SymTD(z3.If(self.e >= 0, self.e, -self.e))

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __mul__(self, o):
        return SymTD(self.e * toreal(num(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        t = SymTD.term(o)
        if t is not None:
            return mkreal(self.e / t)
        return SymTD(self.e / toreal(num(o)))

    def __floordiv__(self, o):
        t = SymTD.term(o)
        if t is not None:
            return mkint(z3.ToInt(self.e / t))
        return NotImplemented

    def __mod__(self, o):
        t = SymTD.term(o)
        return SymTD(self.e - t * z3.ToReal(z3.ToInt(self.e / t)))

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token(self)


def _transitions(tz):
    """[(instant, offset before, offset after)] of a zone within ZONE_RANGE; None for a fixed offset."""
    import datetime

    key = id(tz)
    if key in _TRANS:
        return _TRANS[key][1]
    utc = datetime.timezone.utc

    def off(ts):
        return int(datetime.datetime.fromtimestamp(ts, utc).astimezone(tz).utcoffset().total_seconds())

    out = []
    if not isinstance(tz, datetime.timezone):
        lo, hi = ZONE_RANGE
        a, oa = lo, off(lo)
        while a < hi:
            b = min(a + 86400, hi)
            ob = off(b)
            if ob != oa:
                x, y = a, b
                while y - x > 1:
                    m = (x + y) // 2
                    if off(m) == oa:
                        x = m
                    else:
                        y = m
                out.append((y, oa, ob))
            a, oa = b, ob
    _TRANS[key] = (tz, (off(ZONE_RANGE[0]), out))
    return _TRANS[key][1]


_TRANS: dict = {}
#: 2022-01-01 .. 2028-01-01 UTC: zones with transitions are modelled exactly within this range
ZONE_RANGE = (1640995200, 1830297600)


def _days_from_civil(y, m, d):
    """Days since 1970-01-01 of a (proleptic Gregorian) date; z3 Int terms."""
    yy = z3.If(m <= 2, y - 1, y)
    era = yy / 400
    yoe = yy - era * 400
    doy = (153 * z3.If(m > 2, m - 3, m + 9) + 2) / 5 + d - 1
    doe = yoe * 365 + yoe / 4 - yoe / 100 + doy
    return era * 146097 + doe - 719468


def _civil_from_days(z):
    z = z + 719468
    era = z / 146097
    doe = z - era * 146097
    yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
    mp = (5 * doy + 2) / 153
    d = doy - (153 * mp + 2) / 5 + 1
    m = z3.If(mp < 10, mp + 3, mp - 9)
    return z3.If(m <= 2, yoe + era * 400 + 1, yoe + era * 400), m, d


def make_datetime(cls, *a, **k):
    """datetime(...) with symbolic parts."""
    names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
    p = dict(zip(names, a)) | k
    tz = p.pop("tzinfo", None)
    fold = p.pop("fold", 0)
    v = {n: num(p[n]) if n in p else z3.IntVal(0) for n in names[:-1]}
    for n, lo, hi in (("year", 1, 9999), ("month", 1, 12), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59), ("microsecond", 0, 999999)):
        if not cur().branch(z3.And(v[n] >= lo, v[n] <= hi)):
            raise ValueError(f"{n} must be in {lo}..{hi}")
    y, m, d = v["year"], v["month"], v["day"]
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    dim = z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
    if not cur().branch(z3.And(d >= 1, d <= dim)):
        raise ValueError("day is out of range for month")
    w = z3.ToReal(_days_from_civil(y, m, d) * 86400 + v["hour"] * 3600 + v["minute"] * 60 + v["second"]) + z3.ToReal(v["microsecond"]) / 1000000
    r = SymDT.wall(w, tz, fold)
    r._parts = {n: mkint(v[n]) for n in names[:-1]}
    return r


class SymDT(Sym):
    """datetime: w = wall clock seconds since 1970-01-01 00:00 (z3 Real), with zone and fold."""

    __slots__ = ("w", "tzinfo", "_fold", "_e", "_parts")

    def __init__(self, e, tz):
        """From an instant (seconds since the epoch)."""
        self.tzinfo = tz
        self._parts = {}
        self._e = e
        self._fold = z3.BoolVal(False)
        off, fold = self._off_at(e)
        self.w = z3.simplify(e + off)
        self._fold = fold

    @classmethod
    def wall(cls, w, tz, fold=0):
        self = object.__new__(cls)
        self.w = z3.simplify(w)
        self._parts = {}
        self.tzinfo = tz
        self._fold = bterm(fold) if not isinstance(fold, int) else z3.BoolVal(bool(fold))
        self._e = None
        return self

    @property
    def __class__(self):
        import datetime

        return datetime.datetime

    def _zone(self, x):
        """(first offset, transitions), after making sure x is within the modelled range."""
        if self.tzinfo is None:
            return 0, []
        first, trans = _transitions(self.tzinfo)
        if trans and not cur().branch(z3.And(x >= ZONE_RANGE[0] + 100000, x < ZONE_RANGE[1] - 100000)):
            raise NotImplementedError("time outside the modelled range of zone transitions")
        return first, trans

    def _off_at(self, e):
        """(offset, fold) at an instant."""
        first, trans = self._zone(e)
        off, fold = z3.RealVal(first), z3.BoolVal(False)
        for t, a, b in trans:
            off = z3.If(e >= t, z3.RealVal(b), off)
            if b < a:
                fold = z3.Or(fold, z3.And(e >= t, e < t + (a - b)))
        return off, fold

    def _offset(self):
        """utc offset as a Real term (PEP 495)."""
        first, trans = self._zone(self.w)
        off = z3.RealVal(first)
        for t, a, b in trans:
            lim = z3.If(self._fold, z3.RealVal(t + min(a, b)), z3.RealVal(t + max(a, b)))
            off = z3.If(self.w >= lim, z3.RealVal(b), off)
        return off

    @property
    def e(self):
        if self._e is None:
            self._e = z3.simplify(self.w - self._offset())
        return self._e

    @property
    def fold(self):
        return mkint(z3.If(self._fold, 1, 0))

    @staticmethod
    def of(x):
        if type(x) is SymDT:
            return x
        import datetime

        return SymDT.wall(SymTD.term(x.replace(tzinfo=None) - datetime.datetime(1970, 1, 1)), x.tzinfo, x.fold)

    def _same(self, o):
        import datetime

        if not isinstance(o, datetime.datetime):
            return None
        o = SymDT.of(o)
        if (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return o

    def _pair(self, o):
        """The terms Python compares: wall clocks within one zone, instants otherwise."""
        return (self.w, o.w) if self.tzinfo is o.tzinfo else (self.e, o.e)

    def __sub__(self, o):
        import datetime

        if isinstance(o, datetime.datetime):
            a, b = self._pair(self._same(o))
            return SymTD(z3.simplify(a - b))
        t = SymTD.term(o)
        return NotImplemented if t is None else SymDT.wall(self.w - t, self.tzinfo)

    def __rsub__(self, o):
        b, a = self._pair(self._same(o))
        return SymTD(z3.simplify(a - b))

    def __add__(self, o):
        t = SymTD.term(o)
        return NotImplemented if t is None else SymDT.wall(self.w + t, self.tzinfo)

    __radd__ = __add__

    def _c(self, o, f):
        o = self._same(o)
        return NotImplemented if o is None else mkbool(f(*self._pair(o)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        try:
            r = self._c(o, lambda a, b: a == b)
        except TypeError:
            return False
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(self.conc())

    def timestamp(self):
        return mkreal(self.e)

    def utcoffset(self):
        return None if self.tzinfo is None else SymTD(z3.simplify(self._offset()))

    def tzname(self):
        """Case split over the (few) offsets of the zone."""
        import datetime

        if self.tzinfo is None:
            return None
        off = self._offset()
        offs = sorted({_transitions(self.tzinfo)[0]} | {b for _, _, b in _transitions(self.tzinfo)[1]})
        i = cur().fork([off == o for o in offs]) if len(offs) > 1 else 0
        t = _transitions(self.tzinfo)
        at = ZONE_RANGE[0] if t[0] == offs[i] else next(x for x, _, b in t[1] if b == offs[i])
        return datetime.datetime.fromtimestamp(at, self.tzinfo).tzname()

    def astimezone(self, tz=None):
        import datetime

        if tz is self.tzinfo and tz is not None:
            return self
        return SymDT(self.e, tz or datetime.timezone.utc)

    def _secs(self):
        return z3.ToInt(self.w)

    def _civil(self):
        return _civil_from_days(self._secs() / 86400)

    def _part(self, n, f):
        if n not in self._parts:
            self._parts[n] = mkint(z3.simplify(f()))
        return self._parts[n]

    year = property(lambda self: self._part("year", lambda: self._civil()[0]))
    month = property(lambda self: self._part("month", lambda: self._civil()[1]))
    day = property(lambda self: self._part("day", lambda: self._civil()[2]))
    hour = property(lambda self: self._part("hour", lambda: self._secs() / 3600 % 24))
    minute = property(lambda self: self._part("minute", lambda: self._secs() / 60 % 60))
    second = property(lambda self: self._part("second", lambda: self._secs() % 60))
    microsecond = property(lambda self: self._part("microsecond", lambda: z3.ToInt((self.w - z3.ToReal(self._secs())) * 1000000)))

    def replace(self, **kw):
        unknown = set(kw) - {"tzinfo", "microsecond", "fold"}
        if unknown:
            return self.conc().replace(**kw)
        w = self.w
        if "microsecond" in kw:
            w = z3.ToReal(self._secs()) + toreal(num(kw["microsecond"])) / 1000000
        r = SymDT.wall(w, kw.get("tzinfo", self.tzinfo))
        r._parts = {k: v for k, v in self._parts.items() if k != "microsecond"}
        r._fold = self._fold if "fold" not in kw else z3.BoolVal(bool(kw["fold"]))
        return r

    def isoformat(self, *a, **k):
        return token(self)

    def conc(self):
        import datetime

        v = cur().concretize(self.w)
        fold = cur().branch(self._fold)
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(Fraction(v) * 10**6))
        return d.replace(tzinfo=self.tzinfo, fold=int(fold))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.conc(), n)

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token(self)


for _c in (SymBool, SymInt, SymReal, SymEnum, SymByte, SymBytes, SymStr, SymTD, SymDT):
    _SYMTYPES.add(_c)


# --------------------------------------------------------------------------
# string tokens: "‹sym:12›" stands for the text of symbolic value number 12


def token(x) -> str:
    p = CUR
    if p is None:
        return f"<{type(x).__name__}>"
    return p.token(x)


# --------------------------------------------------------------------------
# structural equality as a term


def sym_eq(a, b):
    """Deep equality; no forking."""
    ta, tb = type(a), type(b)
    if issubclass(ta, Sym) or issubclass(tb, Sym):
        r = (a == b) if issubclass(ta, Sym) else (b == a)
        return False if r is NotImplemented else r
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        cs = []
        for k, v in a.items():
            if k not in b:
                return False
            cs.append(sym_eq(v, b[k]))
        return And(*cs)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And(*[sym_eq(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    r = a == b
    return r if isinstance(r, bool) else bool(r)


# --------------------------------------------------------------------------
# paths


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.checks = 0
        self.discharged = 0
        self.undecided = 0
        self.trivial = 0
        self.forks = 0
        self.aborted = 0
        self.conc_capped = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


CONC_CAP = 24


class Path:
    """One symbolic run."""

    mode = "sym"

    def __init__(self, prefix=(), stats=None, deadline=None, max_forks=4000):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions: list = []
        self.pending: list[list] = []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", SOLVER_TIMEOUT_MS)
        self.stats = stats or Stats()
        self.deadline = deadline
        self.max_forks = max_forks
        self.vars: dict[str, tuple] = {}
        self.counts: dict[str, int] = {}
        self.tokens: list = []
        self._toks: dict = {}
        self.witness: set[str] = set()
        self.cex: list = []
        self.notes: list = []
        self.incomplete = False

    # -- solver ---------------------------------------------------------
    def _check(self, *extra):
        t = _mono()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        self.stats.solver_s += _mono() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _budget(self):
        if self.deadline and _mono() > self.deadline:
            self.incomplete = True
            raise PathAbort("deadline")
        if len(self.decisions) > self.max_forks:
            self.incomplete = True
            raise PathAbort("too many forks")

    # -- decisions --------------------------------------------------------
    def branch(self, e) -> bool:
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.fork([e, z3.Not(e)]) == 0

    def fork(self, conds) -> int:
        """Choose one of the conditions (exhaustive, mutually exclusive)."""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(i)
            self.solver.add(conds[i])
            return i
        self._budget()
        feas = []
        for i, c in enumerate(conds):
            if i == len(conds) - 1 and not feas:
                feas.append(i)  # path condition is satisfiable
                break
            r, _ = self._check(c)
            if r != z3.unsat:
                feas.append(i)
        if len(feas) > 1:
            self.stats.forks += 1
        for i in feas[1:]:
            self.pending.append(self.decisions + [i])
        self.pos += 1
        i = feas[0]
        self.decisions.append(i)
        self.solver.add(conds[i])
        return i

    def concretize(self, e):
        """Pick a concrete value of an arithmetic term; others are queued."""
        e = z3.simplify(e)
        v = _val(e)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
            self.solver.add(e == _rv(v))
            return v
        self._budget()
        vals = []
        self.solver.push()
        while True:
            r, m = self._check()
            if r != z3.sat:
                break
            v = _val(m.eval(e, model_completion=True))
            if len(vals) >= CONC_CAP:
                self.stats.conc_capped += 1
                self.incomplete = True
                if os.environ.get("VERIF_DEBUG"):
                    import traceback

                    print("CAP", str(e)[:200])
                    traceback.print_stack(limit=14)
                break
            vals.append(v)
            self.solver.add(e != _rv(v))
        self.solver.pop()
        if not vals:
            raise PathAbort("concretize: infeasible")
        vals.sort()
        if len(vals) > 1:
            self.stats.forks += 1
        for v in vals[1:]:
            self.pending.append(self.decisions + [v])
        self.pos += 1
        self.decisions.append(vals[0])
        self.solver.add(e == _rv(vals[0]))
        return vals[0]

    def concretize_bv(self, b):
        return int(self.concretize(z3.BV2Int(b)))

    def assume(self, c):
        """Restrict the inputs; infeasible -> path dropped."""
        t = bterm(c)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort("assume false")
        self.solver.add(t)
        if self.pos >= len(self.prefix):
            r, _ = self._check()
            if r == z3.unsat:
                raise PathAbort("assume infeasible")

    def token(self, x):
        k = (type(x).__name__, x.cls.__name__ if type(x) is SymEnum else "",
             str(x.value.e) if type(x) is SymEnum else
             (",".join(str(i if type(i) is int else i.b) for i in x.items) if isinstance(x, _Seq) and type(x) in (SymBytes, SymStr) else str(x.e)))
        n = self._toks.get(k)
        if n is None:
            n = len(self.tokens)
            self.tokens.append(x)
            self._toks[k] = n
        return f"\u2039sym:{n}\u203a"

    # -- model --------------------------------------------------------------
    def assignment(self, m):
        out = {}
        for name, (kind, term) in self.vars.items():
            if kind == "bytes" or kind == "str":
                vals = [int(m.eval(b, model_completion=True).as_long()) for b in term]
                out[name] = vals
            elif kind == "bool":
                out[name] = z3.is_true(m.eval(term, model_completion=True))
            else:
                v = _val(m.eval(term, model_completion=True))
                out[name] = v if isinstance(v, int) else [v.numerator, v.denominator]
        return out


def _val(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return f
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
