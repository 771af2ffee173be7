"""Shared by C05 (order 2) and C06 (order q): coordinates into real projective and lens spaces."""
import numpy as np
from hypothesis import strategies as st
from . import data, ref, coords, holo
from .data import Data

MODES = ["exponential", "exponential", "direct", "one-by-one"]


def kept(case, L):
    """How many coordinates to ask for: a number, half of the landmarks (0), or all but a few."""
    k = case["keep"]
    return max(1, min(L, k if k > 0 else (L // 2 if k == 0 else L + k)))


def query(kind, keep, par):
    """Keyword arguments asking for keep coordinates."""
    return {"proj_dim": keep - 1} if kind == "projective" else {"complex_dim": keep}


def rows_strategy(primes, n=(6, 30), spaces=coords.FLAT, snap=st.none(), wrap=lambda r: r, frac=True):
    return st.fixed_dictionaries({
        "snap": snap,
        "data": wrap(data.recipe(spaces, n=n, frac=frac)),
        "par": coords.params(perc=st.sampled_from([0.9, 0.9, 0.5, 0.1, 0.25, 0.95])),
        "prime": st.sampled_from(primes),
        "keep": st.sampled_from([1, 2, 2, 3, 3, 4, 6, 0, 0, -1, -1, -2, -3]),
        "mode": st.sampled_from(MODES),
        "maxdim": st.sampled_from([1, 1, 2]),
    })


def check_rows(kind, case, ctx):
    q = case["prime"]
    d = data.build(case["data"])
    maxdim = case["maxdim"] if d.n <= 16 else 1
    em = ref.EM(d.X, d.nl, d.dm, q, maxdim=maxdim)
    par = case["par"]
    if case.get("snap"):
        d, em, par = coords.snap(d, em, case, ctx, q)
        maxdim = 1
    s = coords.setting(d, em, par, ctx)
    L, N = em.L, em.N
    i = s.cov
    if i.sum() < 2:
        ctx.discard("nothing is covered")
    V0 = ref.root_map(s.c, q, L, s.w, s.first)[i]
    sub = data.some(len(V0))
    obj = coords.make(kind, d, ctx, prime=q, maxdim=maxdim)

    def matrix(keep, mode):
        out = ctx.call(obj.get_coordinates, projective_dim_red_mode=mode, **query(kind, keep, case), **s.kw)
        out = ctx.array(out, (N, keep), "the coordinates", kind="real" if kind == "projective" else None)
        ctx.require(np.all(np.isfinite(out[i])), "a covered point has undefined coordinates")
        nr = np.linalg.norm(out[i], axis=1)
        ctx.require(np.all(np.abs(nr - 1) < 1e-8), lambda: "a coordinate vector has length %r" % float(nr[np.argmax(np.abs(nr - 1))]))
        return out[i]

    def compare(got, want, tol, what):
        err = ref.gram_match(got[sub], want[sub], q, tol)
        ctx.require(err is None, lambda: "%s (class %d, scale %.6g): %s" % (what, s.idx, s.R, err))

    # nothing to reduce: the map itself
    raw = matrix(L, case["mode"])
    compare(raw, V0, 1e-8, "before reduction")
    nz = [e for e, v in s.c.items() if v % q and s.A[e]]
    ctx.nontrivial(bool(nz) and i.sum() >= 4)
    ctx.label("q=%d" % q, "space=" + case["data"]["space"], "bump=" + s.bump, "mode=" + case["mode"], "std" if s.std else "rips")
    if not i.all():
        ctx.label("uncovered points")
    # reduced
    keep = kept(case, L)
    W, gap, short, _ = ref.reduce_rows(V0, keep, case["mode"])
    if gap < 1e-5 or short < 1e-4:
        ctx.label("reduction not compared: no spectral gap")
        return
    got = matrix(keep, case["mode"])
    tol = 1e-8 + 1e-11 / gap / min(short, 1) * 10 + 10 * ref.sensitivity(V0, W, keep, case["mode"], rows=sub)
    if tol < 1e-3:
        compare(got, W, tol, "reduced to %d entries in %s mode" % (keep, case["mode"]))
        ctx.label("reduction compared")
    ctx.note(points=int(N), landmarks=int(L), kept=keep, gap=gap, entries_of_class=len(nz))


def loops_strategy(primes, n=(6, 16), spaces=coords.FLAT):
    return st.fixed_dictionaries({
        "data": data.recipe(spaces, n=n, pres=("square",), frac=False),
        "par": coords.params(perc=st.sampled_from([0.9, 0.5, 0.25, 0.75])),
        "prime": st.sampled_from(primes),
        "keep": st.sampled_from([0.95, 0.8]),
        "mode": st.sampled_from(MODES),
        "reduce": st.sampled_from([0, 0, 2, 3, 5]),
    })


def check_loops(kind, case, ctx):
    q = case["prime"]
    d0 = data.build(case["data"])
    D = np.array(d0.X, dtype=float) if d0.dm else data.pdist(d0.X)
    em = ref.EM(D, len(D), True, q)
    s = coords.setting(None, em, case["par"], ctx)
    L = em.L
    edges = holo.sampled_edges(em.DLL, s.R, case["keep"])
    if not edges:
        ctx.discard("no edges")
    keep = min(L, case["reduce"] or L)
    V = None
    need = np.cos(min(np.pi / (3 * q), np.pi / 5))
    for steps in (8, 32, 128):
        if L * (L + len(edges) * (steps - 1)) > 400000:
            break
        P = holo.Paths(em.DLL, edges, steps)
        d = Data()
        d.X, d.dm, d.nl = P.X, True, L
        obj = coords.make(kind, d, ctx, prime=q)
        V = ctx.call(obj.get_coordinates, projective_dim_red_mode=case["mode"], **query(kind, keep, case), **s.kw)
        V = ctx.array(V, (P.n, keep), "the coordinates")
        if keep < L and not np.all(np.isfinite(V)):
            ctx.discard("a point is orthogonal to what is kept")
        ctx.require(np.all(np.isfinite(V)), "a covered point has undefined coordinates")
        if keep < L:
            # between two samples the line that is kept must not have been lost: the reference says how close to zero it gets
            w, _ = ref.partition(P.X, s.r, s.bump)
            V0 = ref.root_map(s.c, q, L, w, np.argmax(P.X < s.r, 0))
            move = max(float(np.sqrt(np.maximum(0, 2 - 2 * np.abs(np.sum(V0[ix[1:]].conj() * V0[ix[:-1]], 1)))).max()) for ix in P.at.values())
            _, gap, short, _ = ref.reduce_rows(V0, keep, case["mode"])
            if gap < 1e-5:
                ctx.discard("no spectral gap")
            if move > short / 3:
                near = 0
                continue
        near = min(float(np.abs(np.sum(V[ix[1:]].conj() * V[ix[:-1]], 1)).min()) for ix in P.at.values())
        if near > need:
            break
    else:
        ctx.discard("steps too large")
    if V is None or near <= need:
        ctx.discard("steps too large")
    val, off = {}, 0.0
    for e, ix in P.at.items():
        t = 0
        for a, b in zip(ix[:-1], ix[1:]):
            # the q-th root z for which z*V[b] is close to V[a]
            ang = np.angle(np.vdot(V[b], V[a])) * q / (2 * np.pi)
            k = int(np.rint(ang))
            off = max(off, abs(ang - k))
            t += k
        val[e] = t % q
    if off > 0.34:
        if keep == L:
            ctx.fail("neighbouring points differ by a scalar that is not a %d-th root of unity" % q)
        ctx.discard("steps too large")
    tris, _ = holo.triangles_of(L, edges)
    for (i, j, k) in tris:
        v = (val[(i, j)] + val[(j, k)] - val[(i, k)]) % q
        ctx.require(v == 0, lambda: "transport around the landmark triangle %s multiplies by the root of unity number %d" % ((i, j, k), v))
    add, neg = lambda a, b: (a + b) % q, lambda a: (-a) % q
    _, got = holo.potential(L, edges, val, add, neg, 0)
    _, want = holo.potential(L, edges, {e: s.c.get(e, 0) % q for e in edges}, add, neg, 0)
    ctx.nontrivial(any(want.values()))
    ctx.label("q=%d" % q, "loops reduced" if keep < L else "loops unreduced", "space=" + case["data"]["space"])
    ctx.note(edges=len(edges), triangles=len(tris), cycles=len(got), holonomies=sorted(set(got.values())))
    ok = any(all((got[e] - sg * want[e]) % q == 0 for e in got) for sg in (1, -1))
    ctx.require(ok, lambda: "holonomy around fundamental cycles (closing edge, observed, class): %s" % [(e, got[e], want[e]) for e in got if got[e] != want[e]][:5])
