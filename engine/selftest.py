"""Sanity of the environment and of the executor on a few known answers."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import sym  # noqa: E402
from engine.ctx import SymCtx  # noqa: E402

st = sym.Stats()
done, stack, bad, n = 0, [[]], 0, 0
while stack:
    p = sym.Path(stack.pop(), st, float("inf"))
    sym.CUR = p
    c = SymCtx(p, "quick")
    x = c.int("x", -1000, 1000)
    y = 2 * x + 1 if x > 3 else 7 - x
    c.check(y >= 4, "true claim")
    c.check(y != 21, "false claim")
    bad += sum(lab == "false claim" for lab, *_ in p.cex)
    assert not any(lab == "true claim" for lab, *_ in p.cex)
    n += 1
    stack += p.pending
assert n == 2 and bad == 2, (n, bad)
import kasa  # noqa: E402,F401

print("selftest ok: z3", sym.z3.get_version_string())
