"""Differential test of the symbolic datetime against Python's (development aid): python3-vt tools/test_symdt.py"""
import os, sys, random
from datetime import datetime, timedelta, timezone, UTC
from zoneinfo import ZoneInfo
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from engine import sym
sym.CUR = p = sym.Path([], sym.Stats(), float("inf"))
R = random.Random(1)
def val(x):
    e = z3.simplify(x.e if hasattr(x, "e") else x)
    if z3.is_true(e) or z3.is_false(e): return z3.is_true(e)
    from fractions import Fraction
    return Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) and not z3.is_int_value(e) else e.as_long()
def dtval(x):
    w = z3.simplify(x.w); from fractions import Fraction
    f = Fraction(w.numerator_as_long(), w.denominator_as_long())
    return datetime(1970,1,1)+timedelta(microseconds=int(f*10**6)), z3.is_true(z3.simplify(x._fold))
n = 0
for z in [None, UTC, timezone(timedelta(hours=5, minutes=30)), *map(ZoneInfo, ["Europe/Berlin", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "Africa/Casablanca"])]:
    trans = [] if z is None else sym._transitions(z)[1]
    for i in range(300):
        if trans and i % 2:
            t = R.choice(trans[1:-1]); ts = t[0] + R.randint(-9000, 9000)
        else:
            ts = R.randint(1650000000, 1826000000)
        d = datetime.fromtimestamp(ts, z) if z else datetime.fromtimestamp(ts, UTC).replace(tzinfo=None)
        s = sym.SymDT(z3.RealVal(ts), z)
        assert dtval(s) == (d.replace(tzinfo=None, fold=0), bool(d.fold)), (z, ts, d, dtval(s))
        td = timedelta(seconds=R.choice([1, 3600, 7200, 86400 * 30, R.randint(0, 10**6)]), microseconds=R.randint(0,999999))
        for a, b in ((d - td, s - td), (d + td, s + td), (d.astimezone(UTC) if z else d, s.astimezone(UTC) if z else s)):
            assert dtval(b)[0] == a.replace(tzinfo=None, fold=0), (z, d, td, a, dtval(b))
            if z:
                got = sym.mkreal(b.e)
                assert abs(float(got) - a.timestamp()) < 1e-5, (z, a, got)
        w = d.replace(fold=R.randint(0, 1))
        sw = sym.SymDT.wall(sym.SymTD.term(w.replace(tzinfo=None) - datetime(1970,1,1)), z, w.fold)
        if z:
            assert float(sym.mkreal(sw.e)) == w.timestamp(), (z, w, w.fold)
        for nme in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            assert getattr(sw, nme) == getattr(w, nme), (nme, w)
        x = sym.make_datetime(datetime, z3_year := sym.SymInt(z3.IntVal(w.year)), w.month, w.day, w.hour, w.minute, w.second, tzinfo=z)
        assert dtval(x)[0] == w.replace(tzinfo=None, fold=0), (w, dtval(x))
        n += 1
print("ok", n)
