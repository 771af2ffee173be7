"""C16: cochain bookkeeping."""
from math import comb
from itertools import combinations, permutations
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, sizes
from dreimac.combinatorial import combinatorial_number_system_table
from dreimac.utils import CohomologyUtils as U

RULE = (
    "random sparse cochains of dimension 0-3 on up to 12 vertices over primes 2..65521 with simplices listed in arbitrary vertex order; "
    "lifting, flattening and reindexing are each compared with exact models. Non-trivial: at least two simplices with non-zero values "
    "(and, for flattening, at least one odd vertex order; for reindexing, a landmark list that is not the identity)."
)
ASSUMPTIONS = ["each simplex occurs at most once in a sparse cochain; residues are given as 0..p-1"]
PRIMES = [2, 3, 5, 7, 11, 13, 23, 41, 47, 97, 101, 127, 1009, 65521]


def cochain(g, n, d, k, lo, hi):
    """k distinct d-simplices on n vertices, in arbitrary vertex order, with values in lo..hi"""
    if n > 30:
        allsim = sorted({tuple(sorted(g.choice(n, d + 1, replace=False).tolist())) for _ in range(k)})
    else:
        allsim = list(combinations(range(n), d + 1))
    k = min(k, len(allsim))
    idx = g.choice(len(allsim), size=k, replace=False)
    rows = []
    for i in idx:
        s = list(allsim[i])
        g.shuffle(s)
        rows.append(s + [int(g.integers(lo, hi + 1))])
    return np.array(rows, dtype=np.int64).reshape(k, d + 2)


def sgn(s):
    return (-1) ** sum(1 for i in range(len(s)) for j in range(i + 1, len(s)) if s[i] > s[j])


def lift_strategy():
    return st.fixed_dictionaries({
        "p": st.sampled_from(PRIMES), "n": st.integers(2, 12), "d": st.integers(0, 3), "k": st.integers(0, 40),
        "seed": SEED, "dtype": st.sampled_from(["int64", "int64", "int32"]), "zero": st.booleans(),
    }).filter(lambda c: c["n"] > c["d"])


def check_lift(case, ctx):
    p = case["p"]
    c = cochain(rng(case["seed"]), case["n"], case["d"], case["k"], 0 if case["zero"] else 1, p - 1).astype(case["dtype"])
    if len(c) and case["seed"] % 3 == 0:
        c[0, -1] = p // 2
        c[-1, -1] = (p + 1) // 2
    orig = c.copy()
    out = ctx.array(ctx.call(U.lift_to_integer_cocycle, c, p), orig.shape, "lifted cochain", kind="int").copy()
    ctx.nontrivial(np.count_nonzero(orig[:, -1]) >= 2)
    ctx.label("p=%d" % p)
    ctx.equal(out[:, :-1], orig[:, :-1], "vertices of the lifted cochain")
    v = out[:, -1].astype(int)
    w = orig[:, -1].astype(int)
    ctx.require(np.all((v - w) % p == 0), lambda: "values %s are not congruent to %s modulo %d" % (v, w, p))
    ctx.require(np.all((v == 0) == (w == 0)), "the support changed")
    ctx.require(np.all(2 * np.abs(v) <= p), lambda: "values %s exceed half of %d" % (v, p))
    again = ctx.array(ctx.call(U.lift_to_integer_cocycle, out.copy(), p), orig.shape, "cochain lifted twice", kind="int")
    ctx.equal(again, out, "lifting again")
    kw = ctx.call(U.lift_to_integer_cocycle, orig.copy(), prime=p)
    ctx.equal(kw, out, "lifting with prime given by name")


def vec_strategy():
    return st.fixed_dictionaries({
        "n": st.integers(1, 12), "d": st.integers(0, 3), "k": st.integers(0, 60), "seed": SEED,
        "dtype": st.sampled_from(["int", "float"]), "more": st.integers(0, 2),
    }).filter(lambda c: c["n"] > c["d"])


def check_vec(case, ctx):
    n, d = case["n"], case["d"]
    g = rng(case["seed"])
    c = cochain(g, n, d, case["k"], -5, 5)
    T = combinatorial_number_system_table(n, d + case["more"])
    before = c.copy()
    dt = int if case["dtype"] == "int" else float
    v = ctx.array(ctx.call(U.sparse_cocycle_to_vector, c, T, n, dt), (comb(n, d + 1),), "cochain vector")
    ctx.require(v.dtype == np.dtype(dt), "dtype %s instead of %s" % (v.dtype, dt))
    ctx.equal(c, before, "the sparse cochain was modified:")
    want = np.zeros(comb(n, d + 1), dtype=dt)
    odd = 0
    for row in c.tolist():
        s, val = row[:-1], row[-1]
        e = sgn(s)
        odd += e < 0
        want[sum(comb(x, i + 1) for i, x in enumerate(sorted(s)))] = e * val
    ctx.equal(v, want, "cochain vector")
    ctx.nontrivial(len(c) >= 2 and (odd or d == 0))
    ctx.label("dimension %d" % d)
    # permuting the vertices of each simplex
    P = c.copy()
    signs = []
    for row in P:
        perm = g.permutation(d + 1)
        a = sgn(row[:-1].tolist())
        row[:-1] = row[:-1][perm]
        signs.append(a * sgn(row[:-1].tolist()))
    P[:, -1] *= np.array(signs, dtype=int)
    ctx.equal(ctx.call(U.sparse_cocycle_to_vector, P, T, n, dt), want, "vector after permuting the vertices of every simplex")


def order_strategy():
    return st.fixed_dictionaries({"s": st.lists(st.integers(0, 60), min_size=1, max_size=16, unique=True)})


def check_order(case, ctx):
    s = case["s"]
    simplex, sign = ctx.call(U.order_simplex, np.array(s))
    ctx.require([int(x) for x in simplex] == sorted(s), lambda: "ordered simplex %s" % (simplex,))
    ctx.require(int(sign) == sgn(s), lambda: "sign %s, expected %s" % (sign, sgn(s)))
    rank = [sorted(s).index(x) for x in s]
    got = ctx.call(U.parity, rank)
    ctx.require(int(got) == sgn(rank), lambda: "parity of %s is %s" % (rank, got))
    ctx.nontrivial(len(s) >= 2 and s != sorted(s))


def reindex_strategy():
    return st.fixed_dictionaries({
        "N": sizes(st.integers(2, 60), 80000, 20), "land": sizes(st.integers(2, 14), 600, 20), "seed": SEED, "n0": st.integers(0, 2), "n1": st.integers(0, 4),
        "n2": st.integers(0, 3), "k": st.integers(1, 20),
    })


def check_reindex(case, ctx):
    g = rng(case["seed"])
    N = case["N"]
    m = min(case["land"], N)
    land = g.permutation(N)[:m].astype(np.int64)
    cc, want = [], []
    for d, cnt in ((0, case["n0"]), (1, case["n1"]), (2, case["n2"])):
        cs, ws = [], []
        if m > d:
            for _ in range(cnt):
                c = cochain(g, m, d, case["k"], 1, 40)
                w = c.copy()
                c = c.copy()
                c[:, :-1] = land[c[:, :-1]]
                cs.append(c)
                ws.append(w)
        cc.append(cs)
        want.append(ws)
    land0 = land.copy()
    r = ctx.call(U.reindex_cocycles, cc, land, N)
    out = cc if r is None else r
    ctx.equal(land, land0, "the landmark list was modified:")
    ctx.nontrivial(sum(len(w) for w in want) >= 1 and not np.array_equal(land, np.arange(m)))
    for cs, ws in zip(out, want):
        ctx.require(len(cs) == len(ws), "number of cochains changed")
        for c, w in zip(cs, ws):
            ctx.equal(np.asarray(c), w, "reindexed cochain")


TESTS = [
    Test("lift", lift_strategy, check_lift, quick=3000, thorough=100000),
    Test("vector", vec_strategy, check_vec, quick=2000, thorough=60000),
    Test("order", order_strategy, check_order, quick=2000, thorough=40000,
         fixed=lambda: [{"s": list(p)} for k in (1, 2, 3, 4) for p in permutations(range(3, 3 + k))]),
    Test("reindex", reindex_strategy, check_reindex, quick=1500, thorough=40000),
]
