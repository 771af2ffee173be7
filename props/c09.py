"""C09: the scale interpolates between birth and death, or the call is refused."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords
from lib.strat import fl

RULE = (
    "A case is a metric data set, a kind of coordinate, a class (or several, for toroidal coordinates), a fraction and the standard_range switch; a bump function that "
    "records its second argument observes the radius. boundary: disjoint unions of cycles (octahedra for degree 2) of integer sizes, with births, deaths and their doubles that coincide exactly. several: three to five cycles of different sizes, up to four classes selected in any order. Non-trivial: the call is accepted with 0 < perc < 1 and death > birth, or must be refused."
)
ASSUMPTIONS = ["selecting classes of which one dies exactly where another is born counts as not intersecting, as lifetimes include the birth and not the death"]

KINDS = ["circular", "toroidal", "toroidal", "projective", "lens", "cp"]


def strategy():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS),
        "data": data.recipe(coords.FLAT + ["graph", "random", "threecircles", "annulus"], n=(6, 24)),
        "solid": data.recipe(coords.SOLID, n=(6, 14)),
        "perc": st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.9, 0.1]), st.floats(0, 1, width=32), st.integers(0, 1)),
        "std": st.booleans(),
        "sel": st.lists(st.integers(0, 8), min_size=1, max_size=3),
        "defaults": st.booleans(),
        "prime": st.sampled_from([41, 41, 3, 2, 7]),
        "first": st.booleans(),
    })


class Spy:
    def __init__(self):
        self.radii = []

    def __call__(self, ds, r):
        self.radii.append(r)
        return r - ds


def check(case, ctx):
    k = 2 if case["kind"] == "cp" else 1
    p = 2 if case["kind"] == "projective" else case["prime"]
    d = data.build(case["solid"] if k == 2 else case["data"])
    em = ref.EM(d.X, d.nl, d.dm, p, maxdim=k)
    if em.fragile or len(np.unique(em.land)) < em.L:
        ctx.discard("tied farthest-point choice")
    judge(case, ctx, d, em, k, p, False)


def strategy_boundary():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS + ["toroidal"]),
        "parts": st.one_of(
            st.lists(st.tuples(st.integers(4, 9), st.integers(1, 4)), min_size=1, max_size=3),
            # one dies where the next is born
            st.tuples(st.sampled_from([(4, 2), (5, 2), (6, 2), (7, 3), (8, 3), (9, 3)]), st.integers(1, 2), st.integers(4, 9)).map(
                lambda t: [(t[0][0], t[1]), (t[2], t[0][1] * t[1])])),
        # a square whose diagonal is nearly twice its side: just too short for the standard range, or just long enough
        "diag": st.sampled_from([None, None, None, 2 - 2**-5, 2 - 2**-10, 2 - 2**-13, 2 - 2**-20]),
        "far": st.sampled_from([40, 64, 100]), "unit": st.sampled_from([1, 1, 0.5, 4, 1024]), "shuffle": st.integers(0, 10**6), "ints": st.booleans(),
        "perc": st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75, 0, 1]),
        "std": st.booleans(),
        "sel": st.one_of(st.lists(st.integers(0, 3), min_size=1, max_size=3), st.sampled_from([[0, 1], [1, 0]])),
        "defaults": st.booleans(),
        "prime": st.sampled_from([41, 3, 2, 7]),
        "first": st.booleans(),
    })


class Grid:
    pass


def strategy_several():
    return st.integers(3, 5).flatmap(lambda m: st.fixed_dictionaries({
        "kind": st.just("toroidal"),
        "parts": st.lists(st.tuples(st.integers(5, 12), st.integers(40, 99)), min_size=m, max_size=m),
        "far": st.just(1000), "unit": st.sampled_from([1, 1 / 64]), "shuffle": st.integers(0, 10**6), "ints": st.booleans(),
        "perc": st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75]), "std": st.sampled_from([False, False, False, True]),
        "sel": st.permutations(range(m)).map(lambda q: list(q)[:4]), "defaults": st.booleans(),
        "prime": st.sampled_from([41, 3, 2, 7]), "first": st.just(False),
    }))


def check_boundary(case, ctx):
    k = 2 if case["kind"] == "cp" else 1
    p = 2 if case["kind"] == "projective" else case["prime"]
    blocks = []
    for n, s in case["parts"][: 2 if k == 2 else 5]:
        if k == 2:
            n = 6
            M = np.ones((6, 6)) - np.eye(6) + np.kron(np.eye(3), [[0, 1], [1, 0]]) * ((case.get("diag") or 2) - 1)
        else:
            g = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
            M = np.minimum(g, n - g)
            if case.get("diag") and n == 4:
                M = np.where(M == 2, case["diag"], M)
        blocks.append(M * s)
    N = sum(len(b) for b in blocks)
    D = np.full((N, N), float(case["far"]))
    a = 0
    for b in blocks:
        D[a:a + len(b), a:a + len(b)] = b
        a += len(b)
    q = np.random.default_rng(case["shuffle"]).permutation(N)
    D = D[np.ix_(q, q)] * case["unit"]
    if case["ints"] and case["unit"] == 1:
        D = D.astype(int)
    d = Grid()
    d.X, d.nl, d.dm = D, N, True
    judge(case, ctx, d, ref.EM(D, N, True, p, maxdim=k), k, p, True)


def judge(case, ctx, d, em, k, p, exact):
    kind, perc, std = case["kind"], case["perc"], case["std"]
    n = em.n_classes(k)
    if n == 0:
        ctx.discard("no class")
    idxs = list(dict.fromkeys(i % n for i in case["sel"]))
    if kind != "toroidal":
        idxs = idxs[:1]
    if any(em.tied(k, i) for i in idxs):
        ctx.discard("tied persistence")
    births, deaths = [float(em.dgms[k][i][0]) for i in idxs], [float(em.dgms[k][i][1]) for i in idxs]
    B, D = max(births), min(deaths)
    if not np.isfinite(D):
        ctx.discard("infinite bar")
    start = 2 * B if std else B
    refuse = start > D or (len(idxs) > 1 and B >= D)
    if not exact and not refuse and start > D * (1 - 1e-6):
        ctx.discard("start and end tie")
    if kind == "toroidal" and len(idxs) > 1 and not refuse and (2 * ref.radius(B, D, perc, std)[0] <= B if exact else ref.margin(em, *ref.radius(B, D, perc, std))):
        # at the very scale of a birth the classes may be dependent
        ctx.discard("several classes at a scale that ties with a distance")
    spy = Spy()
    kw = {"perc": perc, "standard_range": std, "partunity_fn": spy}
    if case["defaults"] and (kind != "cp" and std):
        del kw["standard_range"]
    if kind == "toroidal":
        kw["cocycle_idxs"] = idxs
    else:
        kw["cocycle_idx"] = idxs[0]
    if kind in ("projective", "lens", "cp"):
        # nothing to reduce, so that degenerate scales do not matter
        kw.update({"complex_dim": em.L} if kind == "lens" else {"proj_dim": em.L - 1})
    obj = coords.make(kind, d, ctx, prime=p)
    if case["first"] and not refuse and kind != "toroidal":
        # an earlier query with other parameters must not matter
        ctx.outcome(obj.get_coordinates, **dict(kw, perc=0.5, standard_range=False))
        spy.radii.clear()
    out = ctx.outcome(obj.get_coordinates, **kw)
    if exact:
        ctx.label(*(["start is end"] if start == D else []) + (["touching lifetimes"] if len(idxs) > 1 and B == D else []))
    ctx.label(kind, "refused" if refuse else "accepted", "std" if std else "rips", "k=%d" % len(idxs))
    ctx.note(births=births, deaths=deaths, perc=perc, radii=[float(r) for r in spy.radii])
    if refuse:
        ctx.nontrivial()
        ctx.require(out[0] == "raised", lambda: "classes %s live on %s; the range would start at %.6g and end at %.6g, but coordinates were returned"
                    % (idxs, list(zip(births, deaths)), start, D))
        return
    ctx.nontrivial(0 < perc < 1 or start == D)
    want = ((1 - perc) * start + perc * D) / 2
    if not exact and out[0] == "raised" and ref.margin(em, want, 2 * want):
        # rounding decides whether the simplex that kills the class is there
        ctx.label("raised at a tie")
    else:
        if out[0] == "raised" and kind in ("circular", "toroidal", "cp"):
            A = ref.adjacency(em.DLL, 2 * want)
            if not all(ref.has_integral_lift(em.coc[k][i], p, A, k)[0] for i in idxs):
                ctx.discard("no integer lift")
        ctx.require(out[0] == "ok", lambda: "class %s alive on [%.6g, %.6g), perc=%s, standard_range=%s: raised %s: %s" % ((idxs, B, D, perc, std) + out[1:]))
        ctx.require(len(spy.radii) > 0, "the bump function was not used")
    for r in spy.radii:
        ctx.require(abs(float(r) - want) <= 1e-9 * want, lambda: "the covering radius is %.9g, expected %.9g (births %s, deaths %s, perc %s, standard_range %s)"
                    % (float(r), want, births, deaths, perc, std))


TESTS = [
    Test("radius", strategy, check, quick=3500, thorough=80000, modes=("nojit", "jit"), weight=0.85),
    Test("boundary", strategy_boundary, check_boundary, quick=1500, thorough=30000, modes=("nojit", "jit"), weight=0.85),
    Test("several", strategy_several, check_boundary, quick=500, thorough=10000, modes=("nojit", "jit"), weight=0.85),
]
