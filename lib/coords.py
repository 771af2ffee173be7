"""Building coordinate objects from recipes, and the data every coordinate check needs."""
import numpy as np
from hypothesis import strategies as st
from dreimac import CircularCoords, ToroidalCoords, ProjectiveCoords, LensCoords, ComplexProjectiveCoords
from dreimac.utils import PartUnity
from . import data, ref
from .strat import SEED

FLAT = ["circle", "ellipse", "fig8", "twocircles", "threecircles", "clifford", "random", "annulus", "lattice", "explicit",
        "graph", "cyclegraph", "klein", "rp2", "flag:cycle", "flag:theta", "flag:torus", "flag:random", "flag:wedge_cycle", "flag:klein"]
ROUND = ["circle", "circle", "ellipse", "fig8", "twocircles", "threecircles", "annulus", "cyclegraph", "random", "graph"]
SOLID = ["sphere", "sphere", "sphere", "twospheres", "ball", "flag:octahedron", "flag:icosahedron", "flag:susp_cycle", "flag:susp_theta", "ball"]

BUMP_NAMES = ["linear", "linear", "quadratic", "exp", "ones", "tent", "cubic"]


def bump(name):
    """The bump function handed to the code under test."""
    own = {"linear": PartUnity.linear, "quadratic": PartUnity.quadratic, "exp": PartUnity.exp}
    return own.get(name) or ref.BUMPS[name]


PARAMS = {
    "perc": st.sampled_from([0.5, 0.5, 0.9, 0.1, 0.25, 0.75, 0.95, 0.02]),
    "std": st.booleans(),
    "bump": st.sampled_from(BUMP_NAMES),
    "cls": st.integers(0, 4),
}


def params(**over):
    d = dict(PARAMS)
    d.update(over)
    return st.fixed_dictionaries(d)


def make(kind, d, ctx, prime=None, maxdim=None, verbose=False):
    kw = {"distance_matrix": d.dm}
    if maxdim is not None:
        kw["maxdim"] = maxdim
    if verbose:
        kw["verbose"] = True
    cls = {"circular": CircularCoords, "toroidal": ToroidalCoords, "projective": ProjectiveCoords,
           "lens": LensCoords, "cp": ComplexProjectiveCoords}[kind]
    if kind != "projective" and prime is not None:
        kw["prime"] = prime
    return ctx.call(cls, d.X, d.nl, **kw)


class Setting:
    """A class of a data set at a scale, with everything the reference needs."""


def setting(d, em, par, ctx, k=1, cls=None, need_margin=True):
    """Pick the class, the scale and the partition of unity; discards cases outside the domain."""
    if len(np.unique(em.land)) < em.L:
        ctx.discard("repeated landmarks")
    if em.fragile:
        ctx.discard("tied farthest-point choice")
    n = em.n_classes(k)
    if n == 0:
        ctx.discard("no class in degree %d" % k)
    s = Setting()
    s.idx = (par["cls"] % n) if cls is None else cls
    if s.idx >= n:
        ctx.discard("fewer classes than asked for")
    if em.tied(k, s.idx):
        ctx.discard("tied persistence")
    s.birth, s.death = (float(v) for v in em.dgms[k][s.idx])
    if not np.isfinite(s.death):
        ctx.discard("infinite bar")
    s.std = bool(par["std"])
    rr = ref.radius(s.birth, s.death, par["perc"], s.std)
    if rr is None:
        s.std = False
        rr = ref.radius(s.birth, s.death, par["perc"], False)
    s.r, s.R = rr
    s.perc = par["perc"]
    if need_margin and ref.margin(em, s.r, s.R):
        ctx.discard("a distance ties with the scale")
    s.bump = par["bump"]
    s.w, s.cov = ref.partition(em.DLD, s.r, s.bump)
    if s.bump == "exp" and underflows(em.DLD, s.r):
        ctx.discard("the bump function underflows")
    s.first = np.argmax(em.DLD < s.r, 0)
    s.A = ref.adjacency(em.DLL, s.R)
    s.comp = ref.components(s.A)
    s.c = em.coc[k][s.idx]
    s.kw = {"perc": s.perc, "cocycle_idx": s.idx, "partunity_fn": bump(s.bump), "standard_range": s.std}
    return s


def underflows(D, r):
    """Is the exponential bump of a covered point so small at its nearest landmark that it leaves the normal floating-point range?"""
    near = D.min(0)
    near = near[near < r]
    return bool(np.any(r**2 / (r**2 - near**2) > 600))


def snapping():
    """How to put the scale just past (or just short of) the length of an edge; see snap."""
    return st.fixed_dictionaries({"e": st.sampled_from([3e-5, 2e-4, 1e-3, 5e-3, -3e-5, -1e-3]), "which": st.integers(0, 200), "seed": SEED, "extra": st.integers(1, 12)})


def snap(d, em, case, ctx, p, k=1):
    """The landmarks of a data set, a scale R just past the diameter of one of their k-simplices, and points in the middle
    of simplices: at distance just under R/2 from their vertices, and otherwise as far as the triangle inequality asks.

    Returns a new data set (a landmarks-by-points matrix), its reference and the parameters with the scale put in."""
    z, par = case["snap"], dict(case["par"])
    n = em.n_classes(k)
    if n == 0:
        ctx.discard("no class in degree %d" % k)
    birth, death = (float(v) for v in em.dgms[k][par["cls"] % n])
    std = par["std"] and 2 * birth < death
    if not np.isfinite(death):
        ctx.discard("infinite bar")
    start = 2 * birth if std else birth
    g = np.random.default_rng([z["seed"], 91])
    # the simplices of the cocycle first
    coc = em.coc[k][par["cls"] % n]
    ed = sorted({tuple(sorted((s[a], s[b]))) for s in coc for a in range(k + 1) for b in range(a)})
    pool = [e for e in ed if start < em.DLL[e] * (1 + z["e"]) < death]
    if not pool or g.random() < 0.3:
        pool = [(i, j) for i in range(em.L) for j in range(i) if start < em.DLL[i, j] * (1 + z["e"]) < death]
    if not pool:
        ctx.discard("no edge of a suitable length")
    top = float(em.DLL[pool[z["which"] % len(pool)]])
    R = top * (1 + z["e"])
    A = ref.adjacency(em.DLL, R)
    simp = ref.triangles(A) if k == 2 else [(i, j) for i in range(em.L) for j in range(i + 1, em.L) if A[i, j]]
    if not simp:
        ctx.discard("no simplex at the scale")
    diam = np.array([max(em.DLL[s[a], s[b]] for a in range(k + 1) for b in range(a)) for s in simp])
    order = np.argsort(-diam, kind="stable")[: 3 * z["extra"]]
    order = np.concatenate([order[: (z["extra"] + 1) // 2], g.permutation(order)])[: z["extra"]]
    cols = []
    for o in order:
        s = list(simp[o])
        # between half of the diameter and the radius, differently for the vertices
        rho = np.full(k + 1, diam[o] / 2) + (R / 2 - diam[o] / 2) * 0.6 * g.random(k + 1)
        f = (em.DLL[:, s] + rho[None, :]).min(1)
        cols.append(f)
    d2 = data.Data()
    d2.X, d2.dm, d2.nl = np.concatenate([em.DLL, np.array(cols).T], 1), True, em.L
    d2.n, d2.pres = d2.X.shape[1], "rect"
    em2 = ref.EM(d2.X, d2.nl, True, p, maxdim=k)
    par["perc"] = float((R - start) / (death - start))
    par["std"] = bool(std)
    ctx.label("snapped beyond an edge" if z["e"] > 0 else "snapped short of an edge")
    return d2, em2, par
