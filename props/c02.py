"""C02: circular coordinates preserve the selected cohomology class."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords, holo
from lib.data import Data

RULE = (
    "A case is a landmark metric, a prime (2 included), a class and a scale; the data set is the landmarks plus dense samples along "
    "every landmark edge shorter than 0.95 of the scale, and the winding of the coordinate is read off every triangle and every "
    "fundamental cycle. Non-trivial: the class is non-zero on some cycle. Discarded (counted): no such class, tied bars, distances "
    "tied with the scale, steps still larger than 1 rad on the finest sampling, classes refused for want of an integer lift."
)
ASSUMPTIONS = ["the coordinate is followed along segments of the sup-norm space the landmarks embed in, a genuine metric space",
               "only loops of edges shorter than 0.95 of the scale are followed"]


def strategy(n, spaces):
    return st.fixed_dictionaries({
        "data": data.recipe(spaces, n=n, pres=("square",), frac=False),
        "par": coords.params(perc=st.sampled_from([0.5, 0.5, 0.9, 0.25, 0.75, 0.05])),
        "prime": st.sampled_from([41, 41, 2, 3, 5, 7, 127]),
        "check": st.booleans(),
        "keep": st.sampled_from([0.95, 0.9, 0.8]),
    })


def base(case, p):
    """Landmark distances (all points are landmarks) and their persistence."""
    d = data.build(case["data"])
    D = np.array(d.X, dtype=float) if d.dm else data.pdist(d.X)
    em = ref.EM(D, len(D), True, p)
    return D, em


def check(case, ctx):
    p = case["prime"]
    D, em = base(case, p)
    s = coords.setting(None, em, case["par"], ctx)
    DLL, L = em.DLL, em.L
    edges = holo.sampled_edges(DLL, s.R, case["keep"])
    lifted = ref.cochain1(ref.lift(s.c, p), L)
    exact = p > 2 and ref.is_cocycle1(lifted, s.A)
    kw = dict(s.kw)
    if exact:
        kw["check_cocycle_condition"] = case["check"]
    cap = 60000 if ctx.tier != "thorough" else 200000
    th = None
    for steps in (16, 64, 256):
        if L * (L + len(edges) * (steps - 1)) > 12 * cap:
            break
        P = holo.Paths(DLL, edges, steps)
        d = Data()
        d.X, d.dm, d.nl = P.X, True, L
        cc = coords.make("circular", d, ctx, prime=p)
        out = ctx.outcome(cc.get_coordinates, **kw)
        if out[0] == "raised":
            if "integral lift" in out[2] and not exact:
                ctx.discard("no integer lift (C03)")
            ctx.fail("get_coordinates raised %s: %s" % out[1:])
        th = ctx.array(out[1], (P.n,), "the coordinates", kind="real", finite=True)
        n, big, off = holo.winding_cochain(th, P)
        if big < 1.0:
            break
    else:
        ctx.discard("steps too large")
    if th is None or big >= 1.0:
        ctx.discard("steps too large")
    if off > 1e-6:
        ctx.fail("the increments along an edge do not add up to the difference of its ends (%.2g turns)" % off)
    tris, A = holo.triangles_of(L, edges)
    for (i, j, k) in tris:
        w = n[(i, j)] + n[(j, k)] - n[(i, k)]
        ctx.require(w == 0, lambda: "the coordinate of class %d winds %d times around the landmark triangle %s" % (s.idx, w, (i, j, k)))
    got = holo.cycles(n, L, edges)
    cls = {e: ref.lift(s.c, p).get(e, 0) for e in edges}
    want = holo.cycles(cls, L, edges)
    nz = [e for e in got if want[e] % p]
    ctx.nontrivial(bool(nz))
    ctx.label("p=%d" % p, "space=" + case["data"]["space"], "lift is a cocycle" if exact else "lift repaired or p=2", "steps=%d" % steps)
    ctx.note(edges=len(edges), triangles=len(tris), cycles=len(got), windings=sorted(set(got.values()))[:10], points=P.n)
    ok = False
    for sg in (1, -1):
        if exact:
            ok = ok or all(got[e] == sg * want[e] for e in got)
        else:
            ok = ok or all((got[e] - sg * want[e]) % p == 0 for e in got)
    if not ok:
        bad = [(e, got[e], want[e]) for e in got if got[e] != want[e]]
        ctx.fail("windings around fundamental cycles (closing edge, winding, value of the class%s): %s"
                 % ("" if exact else " mod %d" % p, bad[:5]))


TESTS = [
    Test("loops", lambda: strategy((6, 16), coords.FLAT), check, quick=700, thorough=20000, modes=("jit", "nojit"), weight=0.85),
    Test("round", lambda: strategy((6, 20), coords.ROUND), check, quick=700, thorough=20000, modes=("jit", "nojit"), weight=0.85),
]
