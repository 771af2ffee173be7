"""C03: integer lifting is verified, repaired when it fails, or refused."""
import inspect
import re
import numpy as np
from scipy import sparse
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords, holo, plaq
from lib.data import Data
from lib.strat import SEED
from dreimac.combinatorial import combinatorial_number_system_table
from dreimac.utils import CohomologyUtils

RULE = (
    "degree1 / degree2: a case is a flag complex (or a point cloud), a prime (2, 3, 5, 7), a selection of classes and a scale; whether each "
    "class lifts is decided by exact integer elimination, the classes actually represented are read off the coordinates (windings / Chern "
    "numbers). Non-trivial: at least one selected class has a balanced lift that is not a cocycle (it must be repaired, or refused when it "
    "has no integer lift). switch: balanced lift already a cocycle; non-trivial when there is at least one triangle (tetrahedron) to check."
)
ASSUMPTIONS = ["coordinates are followed along landmark edges (landmark triangles) shorter than the scale, in a sup-norm realisation of the landmarks",
               "an error 'identifies' a class when its message contains the class index as a number"]

MIXED = ["flag:mix2", "flag:mix3", "flag:wedge_cone2", "flag:wedge_cone3", "flag:wedge_mix2", "flag:wedge_rp2", "flag:wedge_klein", "flag:cone2", "flag:cone3", "flag:cone5",
         "flag:rp2", "flag:klein"]
SPACES1 = ["flag:tele2", "flag:tele3", "flag:tele5", "flag:cone2", "flag:cone3", "flag:cone5", "flag:rp2", "flag:klein", "flag:torus", "flag:random",
           "flag:wedge_tele3", "flag:wedge_tele2", "flag:wedge_cone3", "flag:wedge_cone2", "flag:mix3", "flag:mix2", "flag:mix2", "flag:cycle", "flag:theta",
           "circle", "twocircles", "clifford", "annulus", "klein", "rp2", "graph", "random"]
SPACES2 = ["flag:susp_tele2", "flag:susp_tele3", "flag:susp_cone2", "flag:susp_cone3", "flag:susp_rp2", "flag:susp_cycle", "flag:susp_theta", "flag:octahedron",
           "flag:susp_mix2", "flag:susp_mix3"]


def strategy1():
    return st.fixed_dictionaries({
        "data": data.recipe(SPACES1, n=(8, 16), pres=("square",), frac=False, extra={"noise": st.sampled_from([0.0, 0.1, 0.3])}),
        "perc": st.sampled_from([0.9, 0.5, 0.75, 0.95]),
        "bump": st.sampled_from(coords.BUMP_NAMES),
        "cls": st.lists(st.integers(0, 5), min_size=1, max_size=3),
        "prime": st.sampled_from([2, 2, 3, 3, 5, 7]),
        "api": st.sampled_from(["circular", "toroidal", "toroidal"]),
        "long": st.booleans(),
    })


def strategy_mixed():
    return st.fixed_dictionaries({
        "data": data.recipe(MIXED, pres=("square",), frac=False, extra={"noise": st.sampled_from([0.0, 0.1, 0.3])}),
        "perc": st.sampled_from([0.9, 0.5, 0.75]),
        "bump": st.just("linear"),
        "cls": st.lists(st.integers(0, 5), min_size=1, max_size=4),
        "prime": st.sampled_from([2, 2, 3, 5]),
        "api": st.sampled_from(["circular", "toroidal", "toroidal", "toroidal"]),
        "long": st.just(True),
    })


def base(case, p, maxdim=1):
    d = data.build(case["data"])
    D = np.array(d.X, dtype=float) if d.dm else data.pdist(d.X)
    em = ref.EM(D, len(D), True, p, maxdim=maxdim)
    return D, em


def numbers(msg):
    return {int(x) for x in re.findall(r"(?<![\w.])-?\d+(?![\w.]*\w)", msg)}


def refusal(ctx, out, bad, good):
    """The call must have been refused, naming one of the classes without integer lift."""
    if out[0] != "raised":
        ctx.fail("coordinates were returned although class(es) %s have no integer lift" % bad)
    named = numbers(out[2])
    ctx.require(named & set(bad), lambda: "the error %r does not name a class without integer lift (those are %s)" % (out[2], bad))
    ctx.require(not (named & set(good)), lambda: "the error %r names a class that does lift (only %s do not)" % (out[2], bad))


def check1(case, ctx):
    p = case["prime"]
    D, em = base(case, p)
    n = em.n_classes()
    if n == 0:
        ctx.discard("no class")
    pool = list(range(n))
    if case["long"]:
        # only the long bars, which live at a common scale
        pers = em.dgms[1][:, 1] - em.dgms[1][:, 0]
        pool = [i for i in pool if pers[i] > 0.4 * pers[0]]
    idxs = list(dict.fromkeys(pool[k % len(pool)] for k in case["cls"]))
    if case["api"] == "circular":
        idxs = idxs[:1]
    if any(em.tied(1, i) for i in idxs):
        ctx.discard("tied persistence")
    B, Dt = max(em.dgms[1][i][0] for i in idxs), min(em.dgms[1][i][1] for i in idxs)
    if B >= Dt or not np.isfinite(Dt):
        idxs = idxs[:1]
        B, Dt = em.dgms[1][idxs[0]]
    if not np.isfinite(Dt) or Dt - B < 1e-3 * Dt:
        ctx.discard("bar too short")
    r, R = ref.radius(float(B), float(Dt), case["perc"], False)
    if ref.margin(em, r, R):
        ctx.discard("a distance ties with the scale")
    A = ref.adjacency(em.DLL, R)
    L = em.L
    status = {i: ref.has_integral_lift(em.coc[1][i], p, A) for i in idxs}
    bad = [i for i in idxs if not status[i][0]]
    good = [i for i in idxs if status[i][0]]
    plain = all(status[i][1] for i in idxs) and p > 2
    ctx.nontrivial(not plain)
    ctx.label("p=%d" % p, "space=" + case["data"]["space"], "k=%d" % len(idxs), case["api"],
              "refused" if bad else ("nothing to repair" if plain else "repaired: %d" % sum(not status[i][1] for i in idxs)))
    edges = holo.sampled_edges(em.DLL, R, 0.95)
    kw = {"perc": case["perc"], "partunity_fn": coords.bump(case["bump"]), "standard_range": False}
    kw["cocycle_idx" if case["api"] == "circular" else "cocycle_idxs"] = idxs[0] if case["api"] == "circular" else idxs
    th = None
    for steps in (12, 48, 192):
        if bad:
            steps = 2
        if L * (L + len(edges) * (steps - 1)) > 800000:
            break
        P = holo.Paths(em.DLL, edges, steps)
        d = Data()
        d.X, d.dm, d.nl = P.X, True, L
        obj = coords.make(case["api"], d, ctx, prime=p)
        out = ctx.outcome(obj.get_coordinates, **kw)
        if bad:
            refusal(ctx, out, bad, good)
            ctx.note(refused=out[2], selected=idxs)
            return
        if out[0] == "raised":
            ctx.fail("all selected classes %s have integer lifts, but the call raised %s: %s" % ((idxs,) + out[1:]))
        th = [out[1]] if case["api"] == "circular" else list(out[1])
        ctx.require(len(th) == len(idxs), "%d coordinates for %d classes" % (len(th), len(idxs)))
        th = [ctx.array(t, (P.n,), "coordinate", kind="real", finite=True) for t in th]
        ns, big = [], 0.0
        for t in th:
            m, b, off = holo.winding_cochain(t, P)
            ns.append(m)
            big = max(big, b)
        if big < 1.0:
            break
    if th is None or big >= 1.0:
        ctx.discard("steps too large")
    tris, Asub = holo.triangles_of(L, edges)
    for m in ns:
        for (i, j, k) in tris:
            w = m[(i, j)] + m[(j, k)] - m[(i, k)]
            ctx.require(w == 0, lambda: "not a genuine integer cocycle: winding %d around the landmark triangle %s (classes %s, p=%d)" % (w, (i, j, k), idxs, p))
    got = [holo.cycles(m, L, edges) for m in ns]
    want = [holo.cycles({e: em.coc[1][i].get(e, 0) for e in edges}, L, edges) for i in idxs]
    es = sorted(want[0])
    G = np.array([[g[e] for e in es] for g in got], dtype=np.int64).reshape(len(got), len(es))
    W = np.array([[w[e] for e in es] for w in want], dtype=np.int64).reshape(len(want), len(es))
    ctx.note(selected=idxs, windings=[sorted(set(x)) for x in G.tolist()], edges=len(edges), triangles=len(tris))
    if len(idxs) == 1:
        ok = any(np.all((G - s * W) % p == 0) for s in (1, -1))
        ctx.require(ok, lambda: "windings %s are not congruent to the class %d on the fundamental cycles %s modulo %d" % (G.tolist(), idxs[0], W.tolist(), p))
    else:
        r1, r2, r3 = ref.rank_mod(G, p), ref.rank_mod(W, p), ref.rank_mod(np.concatenate([G, W]), p)
        ctx.require(r1 == r2 == r3, lambda: "the windings of the coordinates span another subspace than the selected classes %s modulo %d: ranks %d, %d, together %d; windings %s, classes %s"
                    % (idxs, p, r1, r2, r3, G.tolist(), W.tolist()))
    # with every edge sampled the integer class is known completely: the coordinate must be its harmonic map
    if len(edges) == len(ref.edges(em.DLL, R)):
        w, cov = ref.partition(P.X, r, case["bump"])
        first = np.argmax(P.X < r, 0)
        comp = ref.components(A)[first]
        for t, m in zip(th, ns):
            H = ref.Harmonic(ref.cochain1(m, L), em.DLL, R)
            tol = max(5e-5, 100 * H.err)
            if tol > 0.05:
                continue
            f = ref.circle_map(H, w, first)
            dev, where = ref.compare_circle(t[cov], f[cov], comp[cov], tol)
            ctx.label("compared with the harmonic map")
            ctx.require(dev <= tol, lambda: "off by %.3g rad from the harmonic map of its own integer class (tolerance %.2g)" % (dev, tol))


def strategy2():
    return st.fixed_dictionaries({
        "data": data.recipe(SPACES2, n=(8, 12), pres=("square",), frac=False, extra={"noise": st.sampled_from([0.0, 0.1])}),
        "perc": st.sampled_from([0.9, 0.95]),
        "bump": st.sampled_from(["linear", "linear", "quadratic", "tent"]),
        "cls": st.integers(0, 3),
        "prime": st.sampled_from([2, 2, 3, 3, 5]),
    })


def strategy_torsion2():
    return st.fixed_dictionaries({
        "data": data.recipe(["flag:susp_cone2", "flag:susp_cone3", "flag:susp_cone3", "flag:susp_mix3", "flag:susp_cone5"], pres=("square",), frac=False,
                            extra={"noise": st.sampled_from([0.1, 0.3, 1.5])}),
        "perc": st.sampled_from([0.9, 0.5]),
        "bump": st.just("linear"),
        "cls": st.integers(0, 1),
        "prime": st.sampled_from([2, 3, 3, 5]),
    })


def check2(case, ctx):
    p = case["prime"]
    D, em = base(case, p, maxdim=2)
    n = em.n_classes(2)
    if n == 0:
        ctx.discard("no class")
    i = case["cls"] % n
    if em.tied(2, i):
        ctx.discard("tied persistence")
    B, Dt = (float(x) for x in em.dgms[2][i])
    if not np.isfinite(Dt) or Dt - B < 1e-3 * Dt:
        ctx.discard("bar too short")
    r, R = ref.radius(B, Dt, case["perc"], False)
    if ref.margin(em, r, R):
        ctx.discard("a distance ties with the scale")
    A = ref.adjacency(em.DLL, R)
    lifts, plain = ref.has_integral_lift(em.coc[2][i], p, A, 2)
    ctx.nontrivial(not plain)
    ctx.label("p=%d" % p, "space=" + case["data"]["space"], "degree 2 refused" if not lifts else ("degree 2 plain" if plain else "degree 2 repaired"))
    S = plaq.Triangles(em.DLL, R, 0.72, 4 if lifts else 1)
    d = Data()
    d.X, d.dm, d.nl = S.X, True, S.L
    obj = coords.make("cp", d, ctx, prime=p)
    kw = dict(perc=case["perc"], cocycle_idx=i, proj_dim=S.L - 1, partunity_fn=coords.bump(case["bump"]), standard_range=False,
              projective_dim_red_mode="exponential")
    out = ctx.outcome(obj.get_coordinates, **kw)
    if not lifts:
        refusal(ctx, out, [i], [])
        return
    if out[0] == "raised":
        ctx.fail("class %d has an integer lift, but the call raised %s: %s" % ((i,) + out[1:]))
    V = ctx.array(out[1], (S.n, S.L), "the coordinates", finite=True)
    nn, small, big, off = plaq.chern_cochain(V, S)
    if small < 0.3 or big > 2.0:
        ctx.discard("sampling too coarse")
    ctx.require(off < 1e-6, "phases around a triangle do not close up")
    # a genuine cocycle on the complex of sampled triangles ...
    for t in ref.tetrahedra(S.A):
        v = sum((-1) ** k * nn[t[:k] + t[k + 1:]] for k in range(4))
        ctx.require(v == 0, lambda: "the Chern class of the map is %d on the boundary of the landmark tetrahedron %s" % (v, t))
    # ... congruent to the selected class
    ok = any(ref.is_coboundary_mod([nn[t] - s * em.coc[2][i].get(t, 0) for t in S.tris], S.tris, S.edges, p) for s in (1, -1))
    ctx.note(selected=i, total=sum(abs(v) for v in nn.values()), triangles=len(S.tris))
    ctx.require(ok, lambda: "the Chern class of the map is not congruent to class %d modulo %d (up to sign)" % (i, p))


def strategy_switch():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["circular", "toroidal", "toroidal", "cp"]),
        "data": data.recipe(coords.FLAT, n=(8, 26)),
        "solid": data.recipe(coords.SOLID[:-1], n=(8, 16)),
        "par": coords.params(),
        "more": st.lists(st.integers(0, 4), max_size=2),
        "prime": st.sampled_from([3, 5, 41]),
        "both": st.booleans(),
    })


def check_switch(case, ctx):
    p = case["prime"]
    k = 2 if case["kind"] == "cp" else 1
    d = data.build(case["solid"] if k == 2 else case["data"])
    em = ref.EM(d.X, d.nl, d.dm, p, maxdim=k)
    s = coords.setting(d, em, case["par"], ctx, k=k, need_margin=False)
    kw = dict(s.kw)
    idxs = [s.idx]
    if case["kind"] == "toroidal":
        idxs = list(dict.fromkeys([s.idx] + [m % em.n_classes() for m in case["more"]]))
        B, Dt = max(em.dgms[1][i][0] for i in idxs), min(em.dgms[1][i][1] for i in idxs)
        rr = ref.radius(B, Dt, s.perc, s.std) if B < Dt else None
        if rr is None:
            idxs = [s.idx]
        else:
            s.r, s.R = rr
        kw["cocycle_idxs"] = idxs
        del kw["cocycle_idx"]
    if ref.margin(em, s.r, s.R):
        ctx.discard("a distance ties with the scale")
    A = ref.adjacency(em.DLL, s.R)
    for i in idxs:
        if not ref.has_integral_lift(em.coc[k][i], p, A, k)[1]:
            ctx.discard("the balanced lift is not a cocycle")
    ctx.nontrivial(bool(ref.triangles(A) if k == 1 else ref.tetrahedra(A)))
    ctx.label("switch " + case["kind"], "p=%d" % p)
    obj = coords.make(case["kind"], d, ctx, prime=p)
    a = ctx.call(obj.get_coordinates, check_cocycle_condition=True, **kw)
    if case["both"]:
        obj = coords.make(case["kind"], d, ctx, prime=p)
    b = ctx.call(obj.get_coordinates, check_cocycle_condition=False, **kw)
    a, b = ctx.array(np.array(a), None, "coordinates"), ctx.array(np.array(b), None, "coordinates")
    if k == 1:
        ctx.circle_close(a, b, 1e-7, "with the check on and off")
    else:
        ctx.close(a, b, 1e-7, "with the check on and off")


# the integer systems behind the repair, on their own: coboundary matrices of random complexes and arbitrary small matrices


def strategy_solver():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["flag", "flag", "matrix"]), "data": data.recipe(SPACES1[:14], n=(8, 16), pres=("square",), frac=False),
        "seed": SEED, "big": st.sampled_from([1, 1, 3, 1000]), "rows": st.integers(1, 7), "cols": st.integers(1, 7), "entry": st.sampled_from([1, 2, 6]),
        "spoil": st.sampled_from([0, 0, 1, 1, 2]),
    })


def check_solver(case, ctx):
    solve = getattr(CohomologyUtils, "solve_integer_system", None)
    if solve is None or list(inspect.signature(solve).parameters)[:2] != ["matrix", "rhs"]:
        ctx.discard("no such helper")
    g = np.random.default_rng([case["seed"], 33])
    if case["kind"] == "flag":
        d = data.build(case["data"])
        D = np.array(d.X, dtype=float)
        n = len(D)
        vals = np.unique(D[np.triu_indices(n, 1)])
        thr = float(np.quantile(vals, g.choice([0.3, 0.5, 0.6])))
        M = CohomologyUtils.make_delta1_compact(D, thr, combinatorial_number_system_table(n, 2))
        if M.shape[0] == 0 or M.shape[0] > 600:
            ctx.discard("no triangle, or too many")
    else:
        m, n = case["rows"], case["cols"]
        M = sparse.csr_array((g.integers(-case["entry"], case["entry"] + 1, (m, n)) * (g.random((m, n)) < 0.7)).astype(float))
    M0 = M.toarray().copy()
    x = g.integers(-case["big"], case["big"] + 1, M.shape[1])
    b = np.rint(M0 @ x)
    for _ in range(case["spoil"]):
        b[g.integers(0, len(b))] += g.integers(-2, 3)
    b0 = b.copy()
    rows = [{int(j): int(M0[i, j]) for j in np.nonzero(M0[i])[0]} for i in range(len(b))]
    there_is = ref.integer_solvable(rows, [int(v) for v in b])
    y = ctx.call(solve, M, b)
    ctx.equal(b, b0, "the right hand side was modified:")
    ctx.nontrivial(bool(b.any()) and np.count_nonzero(M0) > 1)
    ctx.label(case["kind"], "solvable" if there_is else "not solvable")
    if not there_is:
        ctx.require(y is None, "a system without integer solution was solved")
        return
    ctx.require(y is not None, lambda: "no solution was found of a system of %d equations in %d unknowns that has one" % M0.shape)
    y = ctx.array(y, (M0.shape[1],), "the solution", kind="int")
    res = [sum(c * int(y[j]) for j, c in r.items()) - int(v) for r, v in zip(rows, b)]
    ctx.require(not any(res), lambda: "equation %d is not satisfied" % int(np.argmax(np.abs(np.array(res, dtype=object)))))


TESTS = [
    Test("degree1", strategy1, check1, quick=900, thorough=24000, modes=("jit", "nojit"), weight=0.88),
    Test("torsion", strategy_mixed, check1, quick=700, thorough=16000, modes=("jit", "nojit"), weight=0.88),
    Test("degree2", strategy2, check2, quick=300, thorough=6000, modes=("jit", "nojit"), weight=0.85),
    Test("torsion2", strategy_torsion2, check2, quick=600, thorough=8000, modes=("jit", "nojit"), weight=0.6),
    Test("switch", strategy_switch, check_switch, quick=500, thorough=12000, modes=("jit", "nojit"), weight=0.9),
    Test("solver", strategy_solver, check_solver, quick=900, thorough=30000, modes=("nojit",)),
]
