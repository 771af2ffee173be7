"""C14: simplex numbering."""
from math import comb
from itertools import combinations
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix
from dreimac import combinatorial as C

RULE = (
    "enumeration: (n, d, n2, d2, extra) drawn with n <= 16 (40 in thorough), d <= 5, all increasing tuples are numbered; "
    "non-trivial when there are at least 2 simplices. large: n up to 3000, d <= 3 and random tuples among n vertices "
    "compared with exact binomials; non-trivial always. Run compiled and interpreted."
)
ASSUMPTIONS = ["simplices are passed as increasing tuples or integer arrays, as the library does"]


def exact(simplex):
    return sum(comb(v, l + 1) for l, v in enumerate(simplex))


def enum_strategy():
    return st.fixed_dictionaries(
        {"n": st.integers(0, 16), "d": st.integers(0, 5), "more_vertices": st.integers(0, 8),
         "more_dims": st.integers(0, 2), "as_array": st.booleans()}
    )


def check_enum(case, ctx):
    n, d = case["n"], case["d"]
    T = ctx.call(C.combinatorial_number_system_table, n, d)
    T2 = ctx.call(C.combinatorial_number_system_table, n + case["more_vertices"], d + case["more_dims"])
    want = comb(n, d + 1)
    for k in range(d + 1):
        got = ctx.call(C.number_of_simplices_of_dimension, k, n, T)
        ctx.require(int(got) == comb(n, k + 1), lambda: "%d-simplices on %d vertices: %s, expected %d" % (k, n, got, comb(n, k + 1)))
        got = ctx.call(C.number_of_simplices_of_dimension, k, n, T2)
        ctx.require(int(got) == comb(n, k + 1), "number of %d-simplices on %d vertices from a larger table" % (k, n))
    colex = sorted(combinations(range(n), d + 1), key=lambda s: s[::-1])
    ctx.label("d=%d" % d)
    if want > 6000:
        colex = colex[:2000] + colex[-2000:]
        base = list(range(2000)) + list(range(want - 2000, want))
    else:
        base = list(range(want))
    ctx.nontrivial(want >= 2)
    for i, s in zip(base, colex):
        arg = np.array(s, dtype=np.int64) if case["as_array"] else s
        for t, name in ((T, "own"), (T2, "larger")):
            got = ctx.call(C.combinatorial_number_system_forward, arg, t)
            ctx.require(int(got) == i, lambda: "simplex %s is number %s with the %s table, expected %d" % (s, got, name, i))
            if d == 1:
                got = ctx.call(C.combinatorial_number_system_d1_forward, s[0], s[1], t)
                ctx.require(int(got) == i, lambda: "edge %s is number %s with the %s table, expected %d" % (s, got, name, i))
            if d == 2:
                got = ctx.call(C.combinatorial_number_system_d2_forward, s[0], s[1], s[2], t)
                ctx.require(int(got) == i, lambda: "triangle %s is number %s with the %s table, expected %d" % (s, got, name, i))
    ctx.note(simplices=want)


def large_strategy():
    return st.fixed_dictionaries(
        {"n": mix(st.integers(6, 3000), st.integers(2000, 3000)), "d": st.integers(0, 5), "seed": SEED, "high": st.booleans()}
    )


def check_large(case, ctx):
    n, d = case["n"], case["d"]
    T = ctx.call(C.combinatorial_number_system_table, n, d)
    ctx.nontrivial()
    ctx.label("n>1000" if n > 1000 else "n<=1000")
    if comb(n, d + 1) > 2**53:
        ctx.label("beyond double precision")
    got = ctx.call(C.number_of_simplices_of_dimension, d, n, T)
    ctx.require(int(got) == comb(n, d + 1), lambda: "%d-simplices on %d vertices: %s" % (d, n, got))
    g = rng(case["seed"])
    for k in range(25):
        lo = max(0, n - 12) if case["high"] and n > 12 else 0
        s = sorted(g.choice(np.arange(lo, n), size=d + 1, replace=False).tolist())
        if k == 0:
            s = list(range(n - d - 1, n))
        e = exact(s)
        got = ctx.call(C.combinatorial_number_system_forward, tuple(s), T)
        ctx.require(int(got) == e, lambda: "simplex %s is number %s, expected %d" % (s, got, e))
        if d == 1:
            got = ctx.call(C.combinatorial_number_system_d1_forward, s[0], s[1], T)
            ctx.require(int(got) == e, lambda: "edge %s is number %s, expected %d" % (s, got, e))
        if d == 2:
            got = ctx.call(C.combinatorial_number_system_d2_forward, s[0], s[1], s[2], T)
            ctx.require(int(got) == e, lambda: "triangle %s is number %s, expected %d" % (s, got, e))
    if case["high"]:
        ctx.label("top simplex")


TESTS = [
    Test("enumeration", enum_strategy, check_enum, quick=240, thorough=3000, modes=("jit", "nojit"), weight=0.6,
         fixed=lambda: [{"n": n, "d": d, "more_vertices": m, "more_dims": e, "as_array": False}
                        for n in range(0, 10) for d in range(0, 4) for m in (0, 3) for e in (0, 1)],
         fixed_thorough=lambda: [{"n": n, "d": d, "more_vertices": 5, "more_dims": 1, "as_array": True}
                                 for n in (20, 30, 40) for d in range(0, 4)]),
    Test("large", large_strategy, check_large, quick=200, thorough=4000, modes=("jit", "nojit"), weight=0.5,
         fixed=[{"n": n, "d": d, "seed": 1, "high": True} for n in (50, 200, 1000, 2000, 3000) for d in range(6)]),
]
