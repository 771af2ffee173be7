"""C27: equivalent calls agree."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords
from lib.strat import SEED
from dreimac import CircularCoords, ToroidalCoords, ProjectiveCoords, LensCoords, ComplexProjectiveCoords
from dreimac.utils import PartUnity

RULE = (
    "calls: a data set, a kind of coordinate and two ways to ask for the same thing: arguments given by name, by position, or left out where they have the documented default value, "
    "a larger maximal degree, progress messages on, more landmarks asked for than there are points. routes: circular coordinates against toroidal ones of the same single class, lens coordinates with "
    "prime 2 against real projective ones. Non-trivial: coordinates exist and the data set has at least 4 covered points."
)
ASSUMPTIONS = ["the documented defaults are those in the published signatures of the five classes",
               "reduced coordinates are compared up to a fixed unitary map, where the reduction is well conditioned"]

CLS = {"circular": CircularCoords, "toroidal": ToroidalCoords, "projective": ProjectiveCoords, "lens": LensCoords, "cp": ComplexProjectiveCoords}
PRIME = {"circular": 41, "toroidal": 41, "lens": 3, "cp": 41, "projective": 2}
PERC = {"circular": 0.5, "toroidal": 0.5, "cp": 0.5, "lens": 0.9, "projective": 0.9}
DIM = {"projective": ("proj_dim", 2), "cp": ("proj_dim", 1), "lens": ("complex_dim", 2)}
ORDER = {
    "circular": ["perc", "cocycle_idx", "partunity_fn", "standard_range", "check_cocycle_condition"],
    "toroidal": ["perc", "cocycle_idxs", "partunity_fn", "standard_range", "check_cocycle_condition"],
    "projective": ["perc", "cocycle_idx", "proj_dim", "partunity_fn", "standard_range", "projective_dim_red_mode"],
    "lens": ["perc", "cocycle_idx", "complex_dim", "partunity_fn", "standard_range", "projective_dim_red_mode"],
    "cp": ["perc", "cocycle_idx", "proj_dim", "partunity_fn", "standard_range", "check_cocycle_condition", "projective_dim_red_mode"],
}


def defaults(kind):
    d = {"perc": PERC[kind], "partunity_fn": PartUnity.linear, "standard_range": True}
    d["cocycle_idxs" if kind == "toroidal" else "cocycle_idx"] = [0] if kind == "toroidal" else 0
    if kind in DIM:
        d[DIM[kind][0]] = DIM[kind][1]
        d["projective_dim_red_mode"] = "exponential"
    if kind in ("circular", "toroidal", "cp"):
        d["check_cocycle_condition"] = True
    return d


def strategy():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(list(CLS)),
        "data": data.recipe([s for s in coords.FLAT if s != "lattice"], n=(6, 22), extra={"scale": st.just(1.0)}),
        "solid": data.recipe(coords.SOLID, n=(6, 12), extra={"scale": st.just(1.0)}),
        "prime": st.sampled_from([None, None, 41, 3, 5, 2]),
        "perc": st.sampled_from([None, None, 0.3, 0.75]), "cls": st.sampled_from([None, None, 0, 1, 2]), "bump": st.sampled_from([None, None, "quadratic"]),
        "std": st.sampled_from([None, False, False, False, True]), "dim": st.sampled_from([None, None, 0, 1, 3, 4]), "mode": st.sampled_from([None, None, "direct", "one-by-one"]),
        "check": st.sampled_from([None, None, False]),
        "how": st.sampled_from(["explicit", "explicit", "explicit", "positional", "maxdim", "verbose", "verbose"]),
    })


def same(ctx, kind, x, y, s, q, what, full=None, mode=None):
    if kind in ("circular", "toroidal"):
        ctx.circle_close(y, x, 1e-7, what)
        return
    ctx.require(x.shape == y.shape, lambda: "%s: shape %s instead of %s" % (what, y.shape, x.shape))
    cov = ~np.isnan(x).any(1)
    tol = 1e-8
    if full is not None and x.shape[1] < full.shape[1]:
        V = full[~np.isnan(full).any(1)]
        if len(V) == 0:
            return
        W, gap, short, _ = ref.reduce_rows(V, x.shape[1], mode)
        if gap < 1e-5 or short < 1e-4:
            ctx.label("reduction not determined")
            return
        tol += 10 * ref.sensitivity(V, W, x.shape[1], mode)
        if tol > 1e-3:
            return
        ctx.label("reduction compared")
    ctx.require(np.array_equal(np.isnan(x), np.isnan(y)), what + ": other points are undefined")
    if cov.sum() < 2:
        return
    err = ref.gram_match(y[cov], x[cov], q, tol)
    ctx.require(err is None, lambda: "%s: %s" % (what, err))


def check(case, ctx):
    kind, how = case["kind"], case["how"]
    k = 2 if kind == "cp" else 1
    p = 2 if kind == "projective" else (case["prime"] or PRIME[kind])
    d = data.build(case["solid"] if k == 2 else case["data"])
    em = ref.EM(d.X, d.nl, d.dm, p, maxdim=k)
    if len(np.unique(em.land)) < em.L or em.fragile:
        ctx.discard("repeated landmarks or tied farthest-point choice")
    n = em.n_classes(k)
    if n == 0:
        ctx.discard("no class")
    # what is asked for, spelled out, and the part of it that is not the default
    asked = defaults(kind)
    if case["perc"] is not None:
        asked["perc"] = case["perc"]
    if case["bump"]:
        asked["partunity_fn"] = PartUnity.quadratic
    if case["cls"] is not None:
        c = case["cls"] % n
        asked["cocycle_idxs" if kind == "toroidal" else "cocycle_idx"] = [c] if kind == "toroidal" else c
    if case["std"] is not None:
        asked["standard_range"] = case["std"]
    if case["check"] is not None and "check_cocycle_condition" in asked:
        asked["check_cocycle_condition"] = case["check"]
    if kind in DIM:
        if case["dim"] is not None:
            asked[DIM[kind][0]] = max(case["dim"], kind == "lens")
        if case["mode"]:
            asked["projective_dim_red_mode"] = case["mode"]
        if asked[DIM[kind][0]] > em.L - 1:
            asked[DIM[kind][0]] = em.L - 1
    base = defaults(kind)
    partial = {a: v for a, v in asked.items() if not (a in base and base[a] == v)}
    new = {"distance_matrix": d.dm, "maxdim": k, "verbose": False}
    if kind != "projective":
        new["prime"] = p
    new2 = {a: v for a, v in new.items() if a == "distance_matrix" and v or a == "prime" and v != PRIME[kind]}  # maxdim: 1, or 2 for cp
    if how in ("maxdim",):
        new2["maxdim"] = k + 1
    if how == "verbose":
        new2["verbose"] = True
    args = (d.X, d.nl)
    args2, kw2 = (d.X, d.nl), new2
    if how == "positional":
        args2 = (d.X, d.nl, d.dm) + (() if kind == "projective" else (p,)) + (k, False)
        kw2 = {}
    idx = asked["cocycle_idxs"][0] if kind == "toroidal" else asked["cocycle_idx"]
    if em.tied(k, idx):
        ctx.discard("tied persistence")
    a = ctx.call(CLS[kind], *args, **new)
    with contextlib.redirect_stdout(io.StringIO()):
        b = ctx.call(CLS[kind], *args2, **kw2)
    if how != "maxdim":
        ctx.require(len(a.dgms_) == len(b.dgms_) and all(np.array_equal(u, v) for u, v in zip(a.dgms_, b.dgms_)),
                    lambda: "persistence diagrams of degrees 0..%d and 0..%d, built with %s and with %s" % (len(a.dgms_) - 1, len(b.dgms_) - 1, new, kw2))
    x = ctx.outcome(a.get_coordinates, **asked)
    with contextlib.redirect_stdout(io.StringIO()):
        if how == "positional":
            y = ctx.outcome(b.get_coordinates, *[asked[o] for o in ORDER[kind]])
        else:
            y = ctx.outcome(b.get_coordinates, **partial)
    ctx.label(kind, how, "left out: %d" % (len(asked) - len(partial)), "answered" if x[0] == "ok" else "refused")
    ctx.require(x[0] == y[0], lambda: "with everything spelled out (%s): %s; asked another way (%s): %s" % (words(asked), said(x), how, said(y)))
    if x[0] != "ok":
        ctx.require(x[1:] == y[1:], lambda: "refused with %s and with %s" % (said(x), said(y)))
        return
    ctx.require(sorted(set(x[2])) == sorted(set(y[2])), lambda: "warnings %s and %s" % (x[2], y[2]))
    v = np.array(x[1][0] if kind == "toroidal" else x[1])
    w = np.array(y[1][0] if kind == "toroidal" else y[1])
    if kind == "toroidal":
        ctx.require(len(x[1]) == len(y[1]) == 1, "%d and %d coordinates for one class" % (len(x[1]), len(y[1])))
    ctx.nontrivial(v.shape[0] - np.isnan(v.reshape(len(v), -1)).any(1).sum() >= 4)
    full = None
    if kind in DIM:
        more = dict(asked, **{DIM[kind][0]: em.L - (kind != "lens")})
        full = np.array(ctx.call(a.get_coordinates, **more))
    what = "asked for %s with %s left to the defaults (%s)" % (words(partial), sorted(set(asked) - set(partial)), how)
    same(ctx, kind, v, w, None, {"projective": 2, "lens": p, "cp": None}.get(kind), what, full, asked.get("projective_dim_red_mode"))


def words(kw):
    return {a: (v if isinstance(v, (int, float, str, bool, list)) else getattr(v, "__name__", "function")) for a, v in kw.items()}


def said(out):
    return "coordinates" if out[0] == "ok" else "%s: %s" % (out[1], out[2][:200])


def strategy_routes():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["toroidal", "lens", "lens"]),
        "data": data.recipe(coords.FLAT, n=(6, 22)), "par": coords.params(), "prime": st.sampled_from([41, 2, 3, 5]),
        "mode": st.sampled_from(["exponential", "direct", "one-by-one"]), "keep": st.integers(1, 4), "check": st.booleans(),
    })


def check_routes(case, ctx):
    p = 2 if case["kind"] == "lens" else case["prime"]
    d = data.build(case["data"])
    em = ref.EM(d.X, d.nl, d.dm, p)
    s = coords.setting(d, em, case["par"], ctx)
    kw = {a: v for a, v in s.kw.items() if a != "cocycle_idx"}
    ctx.label(case["kind"])
    if case["kind"] == "toroidal":
        kw["check_cocycle_condition"] = case["check"]
        x = ctx.outcome(coords.make("circular", d, ctx, prime=p).get_coordinates, cocycle_idx=s.idx, **kw)
        y = ctx.outcome(coords.make("toroidal", d, ctx, prime=p).get_coordinates, cocycle_idxs=[s.idx], **kw)
        ctx.require(x[0] == y[0], lambda: "circular coordinates: %s; toroidal coordinates of the same class: %s" % (said(x), said(y)))
        if x[0] == "ok":
            ctx.nontrivial(s.cov.sum() >= 4)
            ctx.circle_close(np.array(y[1][0]), np.array(x[1]), 1e-7, "toroidal coordinates of one class against the circular ones")
        return
    P, Q = coords.make("projective", d, ctx), coords.make("lens", d, ctx, prime=2)
    ctx.nontrivial(s.cov.sum() >= 4)
    keep = min(case["keep"], em.L)
    full = None
    for kk in (em.L, keep):
        x = ctx.array(ctx.call(P.get_coordinates, cocycle_idx=s.idx, proj_dim=kk - 1, projective_dim_red_mode=case["mode"], **kw), (em.N, kk), "projective coordinates")
        y = ctx.array(ctx.call(Q.get_coordinates, cocycle_idx=s.idx, complex_dim=kk, projective_dim_red_mode=case["mode"], **kw), (em.N, kk), "lens coordinates")
        same(ctx, "lens", x, y, None, 2, "lens coordinates with prime 2 against real projective ones (%d entries)" % kk, full, case["mode"])
        full = x


TESTS = [
    Test("calls", strategy, check, quick=2400, thorough=50000, modes=("nojit", "jit"), weight=0.85),
    Test("routes", strategy_routes, check_routes, quick=1600, thorough=36000, modes=("nojit", "jit"), weight=0.9),
]
