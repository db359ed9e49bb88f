"""Scenario contexts: the same scenario runs symbolically and concretely."""

from __future__ import annotations

import asyncio
import contextlib
from fractions import Fraction
from unittest import mock

from . import sym, vloop
from .sym import And, Iff, Implies, Ite, Not, Or, PathAbort, sym_eq, truth, z3  # noqa: F401

KNOWN: dict[str, dict] = {}


class Outcome:
    """Result of a call into the code under test."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return f"raised {type(self.exc).__name__}: {self.exc}" if self.exc else f"returned {self.value!r}"


class _Base:
    symbolic = False
    tier = "quick"

    def __init__(self):
        self._n: dict[str, int] = {}
        self._stack = contextlib.ExitStack()
        self.log: list = []

    def _name(self, name):
        n = self._n.get(name, 0)
        self._n[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    # environment ---------------------------------------------------------
    def patch(self, target, attr, new):
        self._stack.enter_context(mock.patch.object(target, attr, new))
        return new

    def close(self):
        self._stack.close()

    def run(self, coro, *, schedule=False, max_steps=20000):
        ch = None
        if schedule:

            def ch(n):
                return self.pick("sched", n)

        loop = vloop.VirtualLoop(ch, max_steps)
        self.loop = loop
        return vloop.run(coro, loop=loop)

    def attempt(self, coro_or_fn, *a, **k) -> Outcome:
        """Run a coroutine (own loop) or function; capture Exceptions."""
        try:
            if asyncio.iscoroutine(coro_or_fn):
                return Outcome(self.run(coro_or_fn))
            return Outcome(coro_or_fn(*a, **k))
        except vloop.Hang as ex:
            return Outcome(exc=ex)
        except (Exception, asyncio.CancelledError) as ex:
            return Outcome(exc=ex)

    @property
    def deep(self):
        return self.tier == "thorough"

    def note(self, s):
        self.log.append(s)


async def acatch(aw) -> Outcome:
    try:
        return Outcome(await aw)
    except (Exception, asyncio.CancelledError) as ex:
        return Outcome(exc=ex)


class SymCtx(_Base):
    symbolic = True

    def __init__(self, path, tier):
        super().__init__()
        self.path = path
        self.tier = tier

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Int(name)
        self.path.vars[name] = ("int", v)
        if lo is not None:
            self.path.solver.add(v >= lo)
        if hi is not None:
            self.path.solver.add(v <= hi)
        if lo is not None and lo == hi:
            return lo
        return sym.SymInt(v)

    def real(self, name, lo=None, hi=None, den=4):
        """A dyadic real lo..hi with denominator den (exact as a float)."""
        name = self._name(name)
        v = z3.Int(name)
        self.path.vars[name] = ("int", v)
        if lo is not None:
            self.path.solver.add(v >= int(lo * den))
        if hi is not None:
            self.path.solver.add(v <= int(hi * den))
        return sym.SymReal(z3.ToReal(v) / den)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.path.vars[name] = ("bool", v)
        return sym.SymBool(v)

    def bytes(self, name, n):
        name = self._name(name)
        vs = [z3.BitVec(f"{name}[{i}]", 8) for i in range(n)]
        self.path.vars[name] = ("bytes", vs)
        return sym.SymBytes([sym.SymByte(v) for v in vs]) if n else b""

    def str(self, name, n, lo=32, hi=126):
        """ASCII text of length n."""
        name = self._name(name)
        vs = [z3.BitVec(f"{name}[{i}]", 8) for i in range(n)]
        self.path.vars[name] = ("str", vs)
        for v in vs:
            self.path.solver.add(z3.UGE(v, lo), z3.ULE(v, hi))
        return sym.SymStr([sym.SymByte(v, lo, hi) for v in vs]) if n else ""

    def datetime(self, name, lo, hi, tz=None, micro=False):
        """A wall clock time lo..hi (naive datetimes), to the second (or microsecond), with a free fold."""
        if (lo.year, lo.month) == (hi.year, hi.month):
            # by its parts, which keeps the terms simple
            fold = self.bool(f"{name} fold") if tz is not None and sym._transitions(tz)[1] else 0
            return sym.make_datetime(None, lo.year, lo.month, self.int(f"{name} day", 1, hi.day), self.int(f"{name} hour", 0, 23), self.int(f"{name} min", 0, 59), self.int(f"{name} sec", 0, 59), tzinfo=tz, fold=fold)
        base = sym.SymDT.of(lo)
        span = int((hi - lo).total_seconds())
        w = base.w + z3.ToReal(sym.num(self.int(name, 0, span)))
        if micro:
            w = w + z3.ToReal(sym.num(self.int(f"{name} us", 0, 999999))) / 1000000
        fold = self.bool(f"{name} fold") if tz is not None and sym._transitions(tz)[1] else 0
        return sym.SymDT.wall(w, tz, fold)

    def pick(self, name, n):
        """A symbolic index 0..n-1, resolved by case split."""
        if n == 1:
            return 0
        name = self._name(name)
        v = z3.Int(name)
        self.path.vars[name] = ("int", v)
        self.path.solver.add(v >= 0, v < n)
        return self.path.fork([v == i for i in range(n)])

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def assume(self, c):
        self.path.assume(c)

    def concretize(self, x):
        return x._conc() if hasattr(x, "_conc") else x

    def reach(self, label):
        self.path.witness.add(label)

    def check(self, c, label, info=None, known=()):
        """Assert c on this path for every value of the symbolic inputs."""
        p = self.path
        p.stats.checks += 1
        term = sym.bterm(c)
        for fid, pred in known:
            if KNOWN.get(fid, {}).get("status") == "known":
                pt = sym.bterm(pred)
                r, m = p._check(z3.And(pt, z3.Not(term)))
                if r == z3.sat:
                    p.cex.append((f"known:{fid}:{label}", p.assignment(m), _info(info)))
                term = z3.Or(term, pt)
        term = z3.simplify(term)
        if z3.is_true(term):
            p.stats.trivial += 1
            p.stats.discharged += 1
            return
        r, m = p._check(z3.Not(term))
        if r == z3.unsat:
            p.stats.discharged += 1
        elif r == z3.sat:
            p.cex.append((label, p.assignment(m), _info(info)))
            # continue on the part of the input space where it holds
            p.solver.add(term)
            r, _ = p._check()
            if r == z3.unsat:
                raise PathAbort("check failed everywhere on this path")
        else:
            p.stats.undecided += 1
            p.incomplete = True

    def fail(self, label, info=None):
        self.check(False, label, info)


def _info(i):
    try:
        i = i() if callable(i) else i
        return None if i is None else str(i)[:2000]
    except Exception as ex:  # pragma: no cover
        return f"(info failed: {ex})"


class ConcreteCtx(_Base):
    def __init__(self, assignment, tier):
        super().__init__()
        self.a = assignment
        self.tier = tier
        self.failures: list = []
        self.witness: set = set()
        self.rejected = False
        self.missing: list = []

    def _get(self, name, default):
        name = self._name(name)
        if name not in self.a:
            self.missing.append(name)
            return default
        return self.a[name]

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            self._name(name)
            return lo
        d = lo if lo is not None else (hi if hi is not None else 0)
        return self._get(name, d)

    def real(self, name, lo=None, hi=None, den=4):
        d = int((lo if lo is not None else 0) * den)
        return self._get(name, d) / den

    def bool(self, name):
        return self._get(name, False)

    def bytes(self, name, n):
        return bytes(self._get(name, [0] * n))

    def str(self, name, n, lo=32, hi=126):
        return "".join(map(chr, self._get(name, [lo] * n)))

    def datetime(self, name, lo, hi, tz=None, micro=False):
        import datetime

        if (lo.year, lo.month) == (hi.year, hi.month):
            fold = int(self.bool(f"{name} fold")) if tz is not None and sym._transitions(tz)[1] else 0
            return datetime.datetime(lo.year, lo.month, self.int(f"{name} day", 1, hi.day), self.int(f"{name} hour", 0, 23), self.int(f"{name} min", 0, 59), self.int(f"{name} sec", 0, 59), tzinfo=tz, fold=fold)
        span = int((hi - lo).total_seconds())
        d = lo + datetime.timedelta(seconds=self.int(name, 0, span))
        if micro:
            d += datetime.timedelta(microseconds=self.int(f"{name} us", 0, 999999))
        fold = 0
        if tz is not None and sym._transitions(tz)[1]:
            fold = int(self.bool(f"{name} fold"))
        return d.replace(tzinfo=tz, fold=fold)

    def pick(self, name, n):
        if n == 1:
            return 0
        return self._get(name, 0)

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def concretize(self, x):
        return x

    def assume(self, c):
        if not c:
            self.rejected = True
            raise PathAbort("assume false in concrete run")

    def reach(self, label):
        self.witness.add(label)

    def check(self, c, label, info=None, known=()):
        if bool(c):
            return
        for fid, pred in known:
            if KNOWN.get(fid, {}).get("status") == "known" and bool(pred):
                self.failures.append((f"known:{fid}:{label}", _info(info)))
                return
        self.failures.append((label, _info(info)))

    def fail(self, label, info=None):
        self.check(False, label, info)


def frac(v):
    return Fraction(*v) if isinstance(v, list) else v
