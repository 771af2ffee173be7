"""C26: plots."""
import warnings
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, grid, sizes
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.offsetbox import AnnotationBbox, OffsetImage  # noqa: E402
from matplotlib.patches import FancyArrow  # noqa: E402
from matplotlib.collections import PathCollection, LineCollection  # noqa: E402
from dreimac import PlotUtils as P  # noqa: E402

RULE = (
    "random positions, patches, colours (scalar or RGB), zooms, axes given or current, 2D and 3D; the artists that end up on the axes are read back and "
    "compared with the data. Non-trivial: at least 3 data points, or (boundaries, meshes, limits) always."
)
ASSUMPTIONS = ["scalar colour functions are not constant", "the Agg back end; artists are inspected, not pixels"]


class Figure:
    def __init__(self, threed=False, decoy=False):
        plt.close("all")
        self.fig = plt.figure()
        self.ax = self.fig.add_subplot(1, 2, 1, projection="3d" if threed else None)
        # another pair of axes, current when decoy is set
        self.other = self.fig.add_subplot(1, 2, 2, projection="3d" if threed else None)
        plt.sca(self.other if decoy else self.ax)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        plt.close("all")


def artists(ax):
    return len(ax.lines) + len(ax.collections) + len(ax.artists) + len(ax.patches)


def untouched(ctx, fig, n0):
    ctx.require(artists(fig.other) == n0, "something was drawn on axes other than those given")


def im_strategy():
    return st.fixed_dictionaries({"n": sizes(st.integers(1, 14), 150, 40), "dim": sizes(st.integers(1, 6), 40, 12), "zoom": st.sampled_from([1, 1, 2, 0.5]), "given": st.booleans(),
                                  "seed": SEED, "scale": st.sampled_from([1.0, 100.0, 1e-3]), "grid": st.booleans(), "draw": st.sampled_from([False] * 7 + [True])})


def boxes(ctx, ax):
    out = []
    for ab in ax.findobj(AnnotationBbox):
        im = ab.findobj(OffsetImage)
        ctx.require(len(im) == 1, "a mark without exactly one image")
        img = [c for c in im[0].get_children() if hasattr(c, "get_clim")][0]
        out.append((np.array(ab.xy, dtype=float), np.asarray(im[0].get_data(), dtype=float), img.get_clim(), im[0].get_zoom(), img.get_cmap().name, str(ab.xycoords)))
    return out


def check_im(case, ctx):
    g = rng(case["seed"])
    n, dim = case["n"], case["dim"]
    Pt = g.normal(size=(n, dim * dim)) * case["scale"]
    X = g.normal(size=(n, 2)) * case["scale"]
    P0, X0 = Pt.copy(), X.copy()
    with Figure(decoy=case["given"]) as F:
        kw = {"ax": F.ax} if case["given"] else {}
        n0 = artists(F.other)
        if case["grid"]:
            r = ctx.call(P.plot_patches, Pt, zoom=case["zoom"], **kw)
            k = int(np.ceil(np.sqrt(n)))
            while k > 1 and (k - 1) ** 2 >= n:
                k -= 1
            X = np.array([[i % k, i // k] for i in range(n)], dtype=float)
        else:
            r = ctx.call(P.imscatter, X, Pt, dim, zoom=case["zoom"], **kw)
            ctx.equal(X, X0, "the positions were modified:")
        ctx.equal(Pt, P0, "the patches were modified:")
        untouched(ctx, F, n0)
        ctx.require(r is None or r is F.ax, "other axes were returned")
        B = boxes(ctx, F.ax)
        ctx.require(len(B) == n, lambda: "%d marks for %d patches" % (len(B), n))
        lo, hi = P0.min(), P0.max()
        where = np.array([b[0] for b in B]).reshape(-1, 2)
        for i in range(n):
            hits = [B[j] for j in np.nonzero(np.all(np.abs(where - X[i]) <= 1e-12 * (1 + np.abs(X[i])), axis=1))[0]]
            ctx.require(len(hits) >= 1, lambda: "no mark at position %s" % X[i])
            ctx.require(any(b[1].shape == (dim, dim) and np.array_equal(b[1], P0[i].reshape(dim, dim)) for b in hits), "the patch at position %d has the wrong pixels" % i)
        for b in B:
            ctx.require(b[2][0] == lo and b[2][1] == hi, lambda: "grey scale %s instead of the common one (%r, %r)" % (b[2], lo, hi))
            ctx.require(b[3] == case["zoom"], "zoom %s" % b[3])
            ctx.require(b[4] == "gray", "colour map %s" % b[4])
            ctx.require(b[5] == "data", "marks are not positioned in data coordinates")
        (x0, x1), (y0, y1) = F.ax.get_xlim(), F.ax.get_ylim()
        ctx.require(min(x0, x1) <= X[:, 0].min() and max(x0, x1) >= X[:, 0].max() and min(y0, y1) <= X[:, 1].min() and max(y0, y1) >= X[:, 1].max(), "a mark lies outside the axes")
        if case["draw"]:
            ctx.call(F.fig.canvas.draw)
    ctx.nontrivial(n >= 3)
    ctx.label("grid" if case["grid"] else "scatter")


def rp2_strategy():
    return st.fixed_dictionaries({"n": sizes(st.integers(2, 40), 3000, 30), "d": st.sampled_from([2, 2, 2, 3, 4]), "rgb": st.booleans(), "seed": SEED, "styled": st.booleans()})


def disk(g, n, d):
    S = g.normal(size=(n, d))
    return S / np.maximum(np.linalg.norm(S, axis=1), 1)[:, None] * 0.98


def colours(g, n, rgb):
    if rgb:
        return g.random((n, 3))
    f = g.normal(size=n)
    f[0], f[-1] = -3.0, 3.0
    return f


def check_rp2(case, ctx):
    g = rng(case["seed"])
    n, d = case["n"], case["d"]
    S, f = disk(g, n, d), colours(g, n, case["rgb"])
    S0, f0 = S.copy(), f.copy()
    with Figure() as F:
        n0 = artists(F.other)
        kw = {"arrowcolor": "r", "facecolor": (0.5, 0.25, 0.75)} if case["styled"] else {}
        _, w = ctx.call_warn(P.plot_rp2_stereo, S, f, **kw)
        warned = any("not 2 dim" in x for x in w)
        ctx.require(warned == (d != 2), "dimension mismatch %s" % ("not warned about" if d != 2 else "warned about for 2 columns"))
        untouched(ctx, F, n0)
        ctx.equal(S, S0, "the points were modified:")
        ctx.equal(f, f0, "the colours were modified:")
        sc = [c for c in F.ax.collections if isinstance(c, PathCollection)]
        ctx.require(len(sc) == 1, "%d scatter collections" % len(sc))
        ctx.close(np.asarray(sc[0].get_offsets()), S0[:, :2], 1e-12, "positions of the marks")
        scatter_colours(ctx, sc[0], f0, case["rgb"])
        circle(ctx, F.ax, [(0.0, 0.0)])
        antipodal_arrows(ctx, F.ax)
        ctx.require(F.ax.get_aspect() in (1, 1.0, "equal"), "the unit circle does not look like a circle")
        (x0, x1), (y0, y1) = F.ax.get_xlim(), F.ax.get_ylim()
        ctx.require(x0 <= -1 and x1 >= 1 and y0 <= -1 and y1 >= 1, "the unit disk is not inside the axes")
        fc = F.ax.get_facecolor()[:3]
        ctx.close(np.array(fc), np.array((0.5, 0.25, 0.75) if case["styled"] else (0.15, 0.15, 0.15)), 1e-6, "background colour")
    ctx.nontrivial(n >= 3)
    ctx.label("rgb" if case["rgb"] else "scalar", "columns %d" % d)


def scatter_colours(ctx, sc, f, rgb):
    if rgb:
        ctx.close(np.asarray(sc.get_facecolor())[:, :3], f, 1e-9, "colours of the marks")
    else:
        a = sc.get_array()
        ctx.require(a is not None, "scalar colours were not used")
        ctx.close(np.asarray(a, dtype=float).ravel(), f, 1e-12, "scalar colours of the marks")


def circle(ctx, ax, centres):
    """Unit circles around the centres, and no other long lines."""
    lines = [l for l in ax.lines if len(l.get_xdata()) > 20]
    ctx.require(len(lines) == len(centres), "%d circles drawn, expected %d" % (len(lines), len(centres)))
    left = list(centres)
    for l in lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        hit = [c for c in left if np.abs(np.hypot(x - c[0], y - c[1]) - 1).max() < 1e-9]
        ctx.require(len(hit) >= 1, "a drawn curve is not a unit circle around any of %s" % (left,))
        c = hit[0]
        left.remove(c)
        t = np.sort(np.arctan2(y - c[1], x - c[0]) % (2 * np.pi))
        gaps = np.diff(np.concatenate([t, [t[0] + 2 * np.pi]]))
        ctx.require(gaps.max() < 0.2 and abs(x[0] - x[-1]) + abs(y[0] - y[-1]) < 1e-6, "the circle is not closed")


def arrows(ax):
    """(centre, direction of the tip) of each arrow"""
    out = []
    for a in ax.patches:
        if isinstance(a, FancyArrow):
            v = np.unique(np.round(np.asarray(a.get_xy(), dtype=float), 9), axis=0)
            c = (v.min(0) + v.max(0)) / 2
            m = v.mean(0)
            t = v[np.argmax(np.linalg.norm(v - m, axis=1))] - m
            out.append((c, t / np.linalg.norm(t)))
    return out


def antipodal_arrows(ctx, ax):
    """Arrows along the circle, carried to each other by x -> -x."""
    A = arrows(ax)
    ctx.require(len(A) >= 2, "%d arrows" % len(A))
    for c, v in A:
        ctx.require(0.7 < np.linalg.norm(c) < 1.3 and abs(v @ c) < 0.4, lambda: "an arrow at %s pointing along %s is not on the circle" % (c, v))
        ctx.require(any(np.abs(c + c2).max() < 0.02 and np.abs(v + v2).max() < 0.02 for c2, v2 in A), lambda: "no arrow opposite to the one at %s pointing along %s: other points are identified" % (c, v))


def crossing_arrows(ctx, ax):
    """Arrows across the two circles: what leaves one disk enters the other at the same angle."""
    A = arrows(ax)
    one = [(c, v) for c, v in A if np.linalg.norm(c) < 1.25]
    two = [(c - [2.5, 0], v) for c, v in A if np.linalg.norm(c) >= 1.25]
    ctx.require(len(one) >= 2 and len(one) == len(two), "%d and %d arrows" % (len(one), len(two)))
    for c, v in one:
        u = c / np.linalg.norm(c)
        ctx.require(abs(abs(u @ v) - 1) < 0.02, "an arrow is not across the circle")
        hits = [v2 for c2, v2 in two if np.abs(c2 / np.linalg.norm(c2) - u).max() < 0.02]
        ctx.require(len(hits) == 1 and np.abs(hits[0] + v).max() < 0.02, lambda: "the arrow of the first disk at %s has no counterpart in the second" % c)


def rp3_strategy():
    return st.fixed_dictionaries({"n": sizes(st.integers(2, 30), 3000, 30), "d": st.sampled_from([3, 3, 3, 4]), "rgb": st.booleans(), "seed": SEED, "sphere": st.booleans()})


def check_rp3(case, ctx):
    g = rng(case["seed"])
    n, d = case["n"], case["d"]
    S, f = disk(g, n, d), colours(g, n, case["rgb"])
    S0, f0 = S.copy(), f.copy()
    with Figure(threed=True, decoy=True) as F:
        n0 = artists(F.other)
        _, w = ctx.call_warn(P.plot_rp3_stereo, F.ax, S, f, draw_sphere=case["sphere"])
        warned = any("not 4 dim" in x or "not 3 dim" in x for x in w)
        ctx.require(warned == (d != 3), "dimension mismatch %s" % ("not warned about" if d != 3 else "warned about for 3 columns"))
        untouched(ctx, F, n0)
        ctx.equal(S, S0, "the points were modified:")
        ctx.equal(f, f0, "the colours were modified:")
        sc = [c for c in F.ax.collections if isinstance(c, PathCollection)]
        ctx.require(len(sc) == 1, "%d scatter collections" % len(sc))
        off = np.stack([np.asarray(o, dtype=float) for o in sc[0]._offsets3d], 1)
        ctx.close(off, S0[:, :3], 1e-12, "positions of the marks")
        # the colours as given: the getter of 3D scatters shades and reorders them for drawing
        if sc[0].get_array() is not None:
            sc[0].update_scalarmappable()
        rgb = np.asarray(sc[0]._facecolors)[:, :3]
        ctx.require(len(rgb) == n, "%d colours for %d marks" % (len(rgb), n))
        if case["rgb"]:
            ctx.close(rgb, f0, 1e-9, "colours of the marks")
        else:
            z = (f0 - f0.min()) / (f0.max() - f0.min())
            cm = plt.get_cmap("afmhot")
            ok = np.zeros(n, dtype=bool)
            for sh in (-1, 0, 1):
                ok |= np.abs(cm(np.clip(np.rint(z * 255).astype(int) + sh, 0, 255))[:, :3] - rgb).max(1) < 1e-9
            ctx.require(ok.all(), lambda: "colour of mark %d does not follow its value" % int(np.argmin(ok)))
        wires = [c for c in F.ax.collections if isinstance(c, LineCollection)]
        ctx.require((len(wires) > 0) == case["sphere"], "sphere drawn: %s, asked: %s" % (len(wires) > 0, case["sphere"]))
        for c in wires:
            mesh_ok(ctx, c, 0.6)
    ctx.nontrivial(n >= 3)
    ctx.label("rgb" if case["rgb"] else "scalar", "sphere" if case["sphere"] else "no sphere")


def segments(c):
    return [np.asarray(s, dtype=float) for s in c._segments3d]


def mesh_ok(ctx, c, step):
    """on the unit sphere, and no gap wider than two cells"""
    segs = segments(c)
    for s in segs:
        ctx.require(np.abs(np.linalg.norm(s, axis=1) - 1).max() < 1e-9, "the mesh is not on the unit sphere")
    V = np.concatenate(segs)
    g = np.random.default_rng(5)
    q = g.normal(size=(200, 3))
    q /= np.linalg.norm(q, axis=1)[:, None]
    far = np.arccos(np.clip((q @ V.T).max(1), -1, 1))
    i = int(np.argmax(far))
    ctx.require(far[i] <= step, lambda: "the mesh leaves out the part of the sphere around %s (nothing within %.3g)" % (q[i], far[i]))


def bound_strategy():
    return st.fixed_dictionaries({"which": st.sampled_from(["proj", "2sphere", "3sphere"]), "given": st.booleans(), "np": st.integers(2, 30), "nm": st.integers(2, 40),
                                  "alpha": st.sampled_from([0.1, 0.5, 1.0]), "defaults": st.booleans()})


def check_bound(case, ctx):
    w = case["which"]
    with Figure(threed=(w == "3sphere"), decoy=case["given"]) as F:
        kw = {"ax": F.ax} if case["given"] else {}
        n0 = artists(F.other)
        if w == "proj":
            r = ctx.call(P.plot_proj_boundary, **kw)
            circle(ctx, F.ax, [(0.0, 0.0)])
            antipodal_arrows(ctx, F.ax)
        elif w == "2sphere":
            r = ctx.call(P.plot_2sphere_boundary, **kw)
            circle(ctx, F.ax, [(0.0, 0.0), (2.5, 0.0)])
            crossing_arrows(ctx, F.ax)
        else:
            npar, nmer = case["np"], case["nm"]
            if case["defaults"]:
                npar, nmer = 10, 20
                r = ctx.call(P.plot_3sphere_mesh, **kw)
            else:
                r = ctx.call(P.plot_3sphere_mesh, n_parallels=npar, n_meridians=nmer, alpha=case["alpha"], **kw)
            wires = [c for c in F.ax.collections if isinstance(c, LineCollection)]
            ctx.require(len(wires) == 1, "%d meshes drawn" % len(wires))
            mesh_ok(ctx, wires[0], 1.05 * (np.pi / max(npar - 1, 1) + 2 * np.pi / max(nmer - 1, 1)))
            ctx.require(abs((wires[0].get_alpha() or 1) - (0.1 if case["defaults"] else case["alpha"])) < 1e-9, "opacity %s" % wires[0].get_alpha())
            segs = segments(wires[0])
            par = [s for s in segs if np.ptp(s[:, 2]) < 1e-9]
            ctx.require(len(segs) == npar + nmer and len(par) == (npar if npar > 2 else npar) or npar == 2, lambda: "%d curves for %d parallels and %d meridians" % (len(segs), npar, nmer))
        untouched(ctx, F, n0)
        ctx.require(r is None or r is F.ax, "other axes were returned")
        if w != "3sphere":
            # equal scales
            asp = F.ax.get_aspect()
            ctx.require(asp in (1, 1.0, "equal"), "aspect %r: circles do not look like circles" % asp)
    ctx.nontrivial()
    ctx.label(w)


def eq_strategy():
    lim = st.tuples(grid(-50, 50, 4), grid(0.25, 60, 4)).map(list)
    return st.fixed_dictionaries({"x": lim, "y": lim, "z": lim, "flip": st.lists(st.sampled_from([False, False, True]), min_size=3, max_size=3)})


def check_eq(case, ctx):
    with Figure(threed=True) as F:
        L = [(a + b, a) if f else (a, a + b) for (a, b), f in zip((case["x"], case["y"], case["z"]), case["flip"])]
        F.ax.set_xlim3d(L[0])
        F.ax.set_ylim3d(L[1])
        F.ax.set_zlim3d(L[2])
        # what each axis shows, whichever way it runs
        L = [sorted(v) for v in (F.ax.get_xlim3d(), F.ax.get_ylim3d(), F.ax.get_zlim3d())]
        ctx.call(P.set_axes_equal, F.ax)
        N = [sorted(v) for v in (F.ax.get_xlim3d(), F.ax.get_ylim3d(), F.ax.get_zlim3d())]
        ln = [b - a for a, b in N]
        for i in range(3):
            ctx.require(abs(ln[i] - ln[0]) < 1e-6 * ln[0], lambda: "lengths %s" % ln)
            ctx.require(N[i][0] <= L[i][0] + 1e-9 * 100 and N[i][1] >= L[i][1] - 1e-9 * 100, lambda: "axis %d now shows %s, which hides part of %s" % (i, N[i], L[i]))
            ctx.require(abs(sum(N[i]) - sum(L[i])) < 1e-6 * (1 + abs(sum(L[i]))), lambda: "axis %d was recentred from %s to %s" % (i, L[i], N[i]))
    ctx.nontrivial()
    ctx.label("inverted axes: %d" % sum(case["flip"]))


TESTS = [
    Test("images", im_strategy, check_im, quick=800, thorough=16000),
    Test("rp2", rp2_strategy, check_rp2, quick=800, thorough=16000),
    Test("rp3", rp3_strategy, check_rp3, quick=500, thorough=9000),
    Test("boundaries", bound_strategy, check_bound, quick=500, thorough=8000),
    Test("equal axes", eq_strategy, check_eq, quick=500, thorough=8000),
]
