"""C11: landmarks are a maxmin sample; classes are indexed by decreasing persistence."""
import itertools
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords
from lib.strat import rng, SEED, sizes, weighted

RULE = (
    "landmarks: a data set in any presentation and a number of landmarks; which points are landmarks is read off a partition of unity whose bump function is the distance. "
    "classes: a data set of at most 11 landmarks, a prime and a maximal dimension; diagrams are compared with a plain column reduction, representatives are tested with "
    "ranks modulo the prime at their birth and at every scale where bars are born or die. ties: the same for integer distances (rings and octahedra, shifted; random ones), with bars of exactly equal persistence. Non-trivial: fewer landmarks than points (landmarks), some bar of positive degree (classes)."
)
ASSUMPTIONS = ["diagrams are compared up to single precision, in which the persistence library works", "the diagram of degree k is dgms_[k]"]

ALL = coords.FLAT + ["sphere", "ball", "flag:octahedron"]


def make(case, d, ctx, prime, maxdim):
    kind = case["kind"]
    if kind == "cp":
        maxdim = max(2, maxdim)
    if kind == "projective":
        prime = 2
    return coords.make(kind, d, ctx, prime=prime, maxdim=maxdim), prime, maxdim


def sub_rows(case, d):
    """Rectangular input of which only some rows are to be landmarks."""
    if d.dm and d.X.shape[0] != d.X.shape[1] and case.get("fewer"):
        d.nl = max(3, int(d.X.shape[0] * case["fewer"]))
    return d


def strategy_land():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["circular", "toroidal", "projective", "lens", "cp"]),
        "data": weighted([(25, data.recipe(ALL, n=(5, 16))), (1, data.recipe(["circle", "random", "annulus", "clifford", "klein"], n=(40, 400)))]), "fewer": st.sampled_from([0, 0, 0.8, 0.5]),
        "prime": st.sampled_from([2, 3, 41]),
        "m": sizes(st.integers(3, 16), 300, 25),
    })


def check_land(case, ctx):
    d = sub_rows(case, data.build(case["data"]))
    if not (d.dm and d.X.shape[0] != d.X.shape[1]):
        d.nl = min(case["m"], d.X.shape[0])
    if d.nl > 24 and case["kind"] == "cp":
        ctx.discard("too many landmarks for homology in degree 2")
    obj, _, _ = make(case, d, ctx, case["prime"], 1)
    M = np.array(d.X, dtype=float) if d.dm else data.pdist(d.X)
    pool = M.shape[0] if d.dm else len(M)
    N = M.shape[1]
    S = M[:, :pool]
    scale = float(M.max())
    if pool > 1 and (S + np.eye(pool) * scale).min() < 1e-9 * scale:
        ctx.discard("repeated points")
    out = ctx.call(obj.get_covering_partition, 1e6 * scale, lambda ds, r: ds)
    w = ctx.array(out[0], None, "the weights")
    ctx.require(w.ndim == 2 and w.shape[1] == N, lambda: "weights of shape %s for %d points" % (w.shape, N))
    ctx.require(len(w) == min(d.nl, pool), lambda: "%d landmarks, %d were asked for" % (len(w), min(d.nl, pool)))
    zero = w[:, :pool] <= 1e-12
    ctx.require(np.all(zero.sum(1) == 1), lambda: "row %d of the distances is not that of one landmark" % int(np.argmax(zero.sum(1) != 1)))
    land = np.argmax(zero, 1)
    ctx.nontrivial(len(land) < N)
    ctx.label("presentation=" + d.pres, "all" if len(land) == pool else "some", case["kind"])
    ctx.note(landmarks=land.tolist(), points=N)
    ctx.require(len(np.unique(land)) == len(land), lambda: "landmarks repeat: %s" % land.tolist())
    # the rows are the distances of those landmarks
    W = M[land] / M[land].sum(0)
    ctx.close(w, W, 1e-6, "distances of the landmarks (relative to their sum)")
    if len(land) == pool:
        return
    ctx.require(land[0] == 0, lambda: "the first landmark is point %d" % land[0])
    cur = S[0].copy()
    for i in range(1, len(land)):
        ctx.require(cur[land[i]] >= cur.max() - 1e-6 * scale, lambda: "landmark number %d is point %d at distance %.6g from the earlier ones, point %d is at %.6g"
                    % (i, land[i], cur[land[i]], int(np.argmax(cur)), cur.max()))
        cur = np.minimum(cur, S[land[i]])


def strategy_crowded():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["circular", "toroidal", "projective", "lens"]), "prime": st.sampled_from([2, 3, 41]), "seed": SEED,
        "n": st.integers(60, 180), "dim": st.sampled_from([2, 2, 3, 4]), "space": st.sampled_from(["random", "random", "clifford", "klein", "graph", "threecircles"]),
        "noise": st.sampled_from([0.1, 0.3]), "m": st.integers(40, 180),
    })


def check_crowded(case, ctx):
    """Many bars: their order, and the representative of each."""
    d = data.build(dict(case, pres="points", frac=1.0))
    d.nl = min(case["m"], len(d.X))
    obj, p, _ = make(case, d, ctx, case["prime"], 1)
    em = ref.EM(d.X, d.nl, d.dm, p)  # used for the landmarks only
    if em.fragile or len(np.unique(em.land)) < em.L:
        ctx.discard("tied farthest-point choice")
    D, L = em.DLL, em.L
    tol = 2e-6 * float(D.max())
    got = ctx.array(obj.dgms_[1], None, "the diagram of degree 1", kind="real").reshape(-1, 2).astype(float)
    pers = got[:, 1] - got[:, 0]
    ctx.require(np.all(np.diff(pers) <= tol), lambda: "persistences of degree 1 are not in decreasing order: %s" % pers.tolist())
    ctx.nontrivial(len(got) >= 20)
    ctx.label("more than 40 bars" if len(got) > 40 else "up to 40 bars", "p=%d" % p)
    ctx.note(bars=len(got), landmarks=L)
    for i in range(len(got)):
        b, dt, c = ctx.call(obj.get_representative_cocycle, i, 1)
        ctx.require(b == obj.dgms_[1][i, 0] and dt == obj.dgms_[1][i, 1], lambda: "class %d has birth and death %s, its bar is %s" % (i, (float(b), float(dt)), got[i].tolist()))
        if dt - b <= 4 * tol:
            continue
        c = ctx.array(c, None, "the representative", kind="int")
        N = np.zeros((L, L), dtype=np.int64)
        for u, v, x in c.tolist():
            N[u, v] += x
            N[v, u] -= x
        A = D < dt - tol
        np.fill_diagonal(A, False)
        # closed on every triangle that is there before the death
        for u in range(L):
            nb = np.nonzero(A[u])[0]
            s = (N[u, nb][:, None] + N[np.ix_(nb, nb)] - N[u, nb][None, :]) % p
            ctx.require(not np.any(s[A[np.ix_(nb, nb)]]), lambda: "the representative of class %d is not a cocycle before its death %.6g" % (i, dt))
        # not a coboundary at the birth: a potential along a spanning forest does not explain it
        A = D <= b + tol
        np.fill_diagonal(A, False)
        f = np.full(L, -1)
        for root in range(L):
            if f[root] >= 0:
                continue
            f[root], todo = 0, [root]
            while todo:
                u = todo.pop()
                for v in np.nonzero(A[u] & (f < 0))[0]:
                    f[v] = (f[u] + N[u, v]) % p
                    todo.append(v)
        off = (f[None, :] - f[:, None] - N) % p
        ctx.require(bool(np.any(off[A])), lambda: "the representative of class %d is a coboundary at its birth %.6g" % (i, b))


# ---- persistence, from the definition ------------------------------------------------------------------------------

def simplices(D, top):
    """(value, simplex) up to dimension top, in filtration order"""
    out = []
    n = len(D)
    for k in range(top + 1):
        for s in itertools.combinations(range(n), k + 1):
            out.append((max([D[a, b] for a, b in itertools.combinations(s, 2)], default=0.0), k, s))
    out.sort()
    return out


def bars(D, p, maxdim):
    """Persistence pairs by reducing the boundary matrix modulo p."""
    S = simplices(D, maxdim + 1)
    ix = {s: i for i, (_, _, s) in enumerate(S)}
    cols, low, dg = {}, {}, {k: [] for k in range(maxdim + 1)}
    for j, (v, k, s) in enumerate(S):
        if k == 0:
            continue
        c = {ix[s[:t] + s[t + 1:]]: (-1) ** t % p for t in range(k + 1)}
        while c:
            l = max(c)
            if l not in low:
                break
            o = cols[low[l]]
            f = -c[l] * pow(o[l], -1, p) % p
            for r, x in o.items():
                y = (c.get(r, 0) + f * x) % p
                if y:
                    c[r] = y
                else:
                    c.pop(r, None)
        if c:
            l = max(c)
            low[l] = j
            cols[j] = c
            if S[l][1] <= maxdim and v > S[l][0]:
                dg[S[l][1]].append((S[l][0], v))
    return dg


def strategy_classes():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["circular", "circular", "toroidal", "projective", "lens", "cp", "cp"]),
        "data": data.recipe(ALL + ["random", "random", "flag:cycle", "flag:susp_cycle", "flag:random", "graph", "sphere"], n=(5, 11)), "fewer": st.sampled_from([0, 0, 0.8]),
        "prime": st.sampled_from([2, 3, 5, 41]), "maxdim": st.sampled_from([1, 1, 2]),
    })


def match(a, b, tol):
    """Greedy matching of two lists of bars; what is left over."""
    b = list(b)
    left = []
    for x in a:
        near = [(max(abs(x[0] - y[0]), abs(x[1] - y[1])), i) for i, y in enumerate(b)]
        if near and min(near)[0] <= tol:
            b.pop(min(near)[1])
        else:
            left.append(x)
    return left, b


def strategy_again():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["circular", "circular", "toroidal", "projective", "lens", "cp", "cp"]),
        "data": data.recipe(["circle", "random", "clifford", "lattice", "graph", "cyclegraph", "flag:cycle", "flag:susp_cycle", "explicit"], n=(4, 8), pres=("points", "square")),
        "prime": st.sampled_from([2, 3, 5, 41]), "maxdim": st.sampled_from([1, 1, 2]), "again": st.integers(1, 5), "seed": SEED, "m": st.integers(-2, 4),
    })


def check_again(case, ctx):
    """Data in which points coincide, with about as many landmarks as there are distinct points, or more."""
    d = data.build(case["data"])
    n = len(d.X)
    g = rng(case["seed"], 31)
    o = g.permutation(np.concatenate([np.arange(n), g.integers(0, n, case["again"])]))
    d.X = d.X[np.ix_(o, o)] if d.dm else d.X[o]
    d.nl = int(min(max(3, n + case["m"]), len(o)))
    if d.nl > 11:
        ctx.discard("many landmarks")
    obj, p, maxdim = make(case, d, ctx, case["prime"], case["maxdim"])
    M = np.array(d.X, dtype=float) if d.dm else data.pdist(d.X)
    # the sample, from the relative distances
    w = ctx.call(obj.get_covering_partition, 1e6 * float(M.max()), lambda ds, r: ds)[0]
    w = ctx.array(w, None, "the weights")
    ctx.require(w.ndim == 2 and w.shape[1] == len(o) and len(w) <= d.nl, lambda: "weights of shape %s for %d points and %d landmarks" % (w.shape, len(o), d.nl))
    ctx.require(np.all((w <= 1e-6).any(1)), "a landmark is at distance zero from no point")
    land = np.argmin(w, 1)
    ctx.label("more landmarks than distinct points" if d.nl > n else "enough distinct points")
    if d.nl >= n:
        ctx.require(bool((w.min(0) <= 1e-6).all()), lambda: "%d landmarks were asked for, there are %d distinct points, and some are at positive distance from all landmarks" % (d.nl, n))
    judge(case, ctx, d, obj, M[np.ix_(land, land)], p, maxdim)


def strategy_ties():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["circular", "circular", "toroidal", "projective", "lens", "cp", "cp"]),
        "how": st.sampled_from(["rings", "rings", "octahedra", "steps", "steps"]),
        "parts": st.lists(st.tuples(st.integers(4, 6), st.integers(1, 2), st.integers(0, 3)).map(list), min_size=2, max_size=3),
        "n": st.integers(6, 11), "low": st.integers(3, 8), "steps": st.integers(2, 4),
        "unit": st.sampled_from([1, 1, 0.5, 1024]), "ints": st.booleans(),
        "prime": st.sampled_from([2, 3, 5, 41]), "maxdim": st.sampled_from([1, 1, 2]), "seed": SEED,
    })


def check_ties(case, ctx):
    """Integer distances: bars of exactly equal persistence, with equal or different births."""
    g = rng(case["seed"], 32)
    if case["how"] == "steps":
        n = case["n"]
        D = np.triu(g.integers(case["low"], case["low"] + case["steps"], (n, n)), 1)
        D = D + D.T  # a metric: the largest distance is at most twice the smallest
    else:
        blocks = []
        for n, s, c in case["parts"]:
            if case["how"] == "octahedra":
                M = np.ones((6, 6), dtype=int) - np.eye(6, dtype=int) + np.kron(np.eye(3, dtype=int), [[0, 1], [1, 0]])
            else:
                a = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
                M = np.minimum(a, n - a)
            blocks.append(np.where(M > 0, M * s + c, 0))
        while sum(len(b) for b in blocks) > 12:
            blocks.pop()
        n = sum(len(b) for b in blocks)
        D = np.full((n, n), 40)
        a = 0
        for b in blocks:
            D[a:a + len(b), a:a + len(b)] = b
            a += len(b)
    o = g.permutation(n)
    d = data.Data()
    d.X = D[np.ix_(o, o)] * (1 if case["ints"] and case["unit"] == 1 else float(case["unit"]))
    d.dm, d.nl, d.pres, d.n = True, n, "square", n
    obj, p, maxdim = make(case, d, ctx, case["prime"], case["maxdim"])
    w = ctx.array(ctx.call(obj.get_covering_partition, 1e6 * float(D.max()), lambda ds, r: ds)[0], (n, n), "the weights")
    land = np.argmin(w, 1)
    ctx.require(len(np.unique(land)) == n, lambda: "landmarks repeat: %s" % land.tolist())
    for k in range(1, maxdim + 1):
        q = np.round(np.diff(obj.dgms_[k].reshape(-1, 2), axis=1)[:, 0] / case["unit"]).tolist()
        ctx.label("degree %d: %s" % (k, "tied bars" if len(set(q)) < len(q) else "no tie"))
    judge(case, ctx, d, obj, np.array(d.X, dtype=float)[np.ix_(land, land)], p, maxdim)


def check_classes(case, ctx):
    d = sub_rows(case, data.build(case["data"]))
    if d.nl > 11:
        ctx.discard("many landmarks")
    obj, p, maxdim = make(case, d, ctx, case["prime"], case["maxdim"])
    em = ref.EM(d.X, d.nl, d.dm, p, maxdim=maxdim)  # used for the landmarks only
    if em.fragile or len(np.unique(em.land)) < em.L:
        ctx.discard("tied farthest-point choice")
    judge(case, ctx, d, obj, em.DLL, p, maxdim)


def judge(case, ctx, d, obj, D, p, maxdim):
    L = len(D)
    scale = float(D.max())
    tol = 2e-6 * scale
    dg = bars(D, p, maxdim)
    nbars = 0
    for k in range(1, maxdim + 1):
        mine = [b for b in dg[k] if b[1] - b[0] > 4 * tol]
        got = ctx.array(obj.dgms_[k], None, "the diagram of degree %d" % k, kind="real").reshape(-1, 2).astype(float)
        sig = [tuple(b) for b in got if b[1] - b[0] > 4 * tol]
        l1, _ = match(mine, [tuple(b) for b in got], tol)
        _, l2 = match([b for b in dg[k]], sig, tol)
        ctx.require(not l1, lambda: "bars of degree %d missing from the diagram: %s (diagram: %s)" % (k, l1, got.tolist()))
        ctx.require(not l2, lambda: "bars of degree %d that do not exist: %s (expected: %s)" % (k, l2, dg[k]))
        pers = got[:, 1] - got[:, 0]
        ctx.require(np.all(np.diff(pers) <= tol), lambda: "persistences of degree %d are not in decreasing order: %s" % (k, pers.tolist()))
        nbars += len(sig)
        faces = {j: list(itertools.combinations(range(L), j + 1)) for j in range(k - 1, k + 2)}
        diam = {j: np.array([max([D[a, b] for a, b in itertools.combinations(s, 2)], default=0.0) for s in faces[j]]) for j in faces}
        ix = {s: i for i, s in enumerate(faces[k])}
        B0 = ref.coboundary_matrix(faces[k], faces[k - 1])
        B1 = ref.coboundary_matrix(faces[k + 1], faces[k])
        reps = []
        for i in range(len(got)):
            b, dt, c = ctx.call(obj.get_representative_cocycle, i, k)
            ctx.require(b == obj.dgms_[k][i, 0] and dt == obj.dgms_[k][i, 1], lambda: "class %d of degree %d has birth and death %s, its bar is %s" % (i, k, (float(b), float(dt)), got[i].tolist()))
            c = ctx.array(c, None, "the representative", kind="int")
            ctx.require(c.ndim == 2 and c.shape[1] == k + 2, lambda: "a representative of degree %d has shape %s" % (k, c.shape))
            ctx.require(c.size == 0 or (c[:, :-1].min() >= 0 and c[:, :-1].max() < L), "a representative refers to a vertex that is not a landmark position")
            v = np.zeros(len(faces[k]), dtype=np.int64)
            for row in c:
                s = [int(x) for x in row[:-1]]
                ctx.require(len(set(s)) == k + 1, "a representative has a degenerate simplex")
                v[ix[tuple(sorted(s))]] += ref.perm_sign(s) * int(row[-1])
            v %= p
            reps.append(v)
            if dt - b <= 4 * tol:
                continue
            live = diam[k + 1] < dt - tol
            ctx.require(not np.any((B1[live] @ v) % p), lambda: "the representative of class %d of degree %d is not a cocycle before its death %.6g" % (i, k, dt))
            at = diam[k] <= b + tol
            inner = diam[k - 1] <= b + tol
            M = B0[np.ix_(at, inner)] % p
            ctx.require(ref.rank_mod(np.concatenate([M, v[at][:, None]], 1), p) == ref.rank_mod(M, p) + 1,
                        lambda: "the representative of class %d of degree %d is a coboundary at its birth %.6g" % (i, k, b))
        # at any scale the representatives of the bars that are alive are a basis
        ev = np.unique(np.round(np.concatenate([got.ravel(), [0]]) / scale, 5)) * scale
        for t in list((ev[1:] + ev[:-1]) / 2)[:12]:
            alive = [i for i in range(len(got)) if got[i, 0] < t - 3 * tol and got[i, 1] > t + 3 * tol]
            if len(alive) < 2 or any(abs(x - t) < 3 * tol for x in got.ravel()):
                continue
            at, inner = diam[k] < t, diam[k - 1] < t
            M = B0[np.ix_(at, inner)] % p
            A = np.stack([reps[i][at] for i in alive], 1)
            ctx.require(ref.rank_mod(np.concatenate([M, A], 1), p) == ref.rank_mod(M, p) + len(alive),
                        lambda: "at scale %.6g the representatives of the classes %s of degree %d are dependent" % (t, alive, k))
            ctx.label("several classes alive")
    ctx.nontrivial(nbars > 0)
    ctx.label("p=%d" % p, "maxdim=%d" % maxdim, case["kind"], "presentation=" + d.pres)
    ctx.note(bars={k: [[round(float(x), 4) for x in b] for b in obj.dgms_[k][:4]] for k in range(1, maxdim + 1)})


TESTS = [
    Test("landmarks", strategy_land, check_land, quick=3000, thorough=80000, modes=("nojit",)),
    Test("crowded", strategy_crowded, check_crowded, quick=60, thorough=1500, modes=("nojit",)),
    Test("classes", strategy_classes, check_classes, quick=3000, thorough=80000, modes=("nojit",)),
    Test("coinciding", strategy_again, check_again, quick=1200, thorough=40000, modes=("nojit",)),
    Test("ties", strategy_ties, check_ties, quick=1500, thorough=40000, modes=("nojit",)),
]
