"""C21: circle colourings."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, grid, fl, sizes
from dreimac import CircleMapUtils as C

RULE = (
    "angle arrays of shape (), (n,), (n, m), (n, m, k) (multiples of pi/12, random, near 0 and 2*pi) for the sinebow; for level sets 1-12 sets, smoothing 0 or "
    "0.01..3, angles sorted, random or placed symmetrically in a level set. Non-trivial: at least two different angles."
)
ASSUMPTIONS = ["angles are given in [0, 2*pi]; level sets are asked for one-dimensional arrays"]
TAU = 2 * np.pi


def sine_strategy():
    return st.fixed_dictionaries({
        "shape": st.sampled_from([[], [1], [5], [40], [3, 4], [1, 7], [2, 3, 2], [0], [3000], [70, 50]]), "seed": SEED,
        "kind": st.sampled_from(["random", "twelfths", "edges"]), "vals": st.lists(st.integers(0, 24), min_size=1, max_size=12), "layout": layouts(),
    })


def arr(case):
    g = rng(case["seed"])
    sh = tuple(case["shape"])
    n = int(np.prod(sh))
    if case["kind"] == "random":
        a = g.random(n) * TAU
    elif case["kind"] == "twelfths":
        a = np.array((case["vals"] * (n + 1))[:n], dtype=float) * np.pi / 12
    else:
        a = g.choice([0.0, TAU, np.nextafter(TAU, 0), 1e-12, np.pi, np.nextafter(np.pi, 4)], n)
    return a.reshape(sh)


def check_sine(case, ctx):
    a = arr(case)
    if a.ndim:
        a = lay(a, case["layout"])
    a0 = np.array(a)
    r = ctx.array(ctx.call(C.to_sinebow, a), a0.shape + (3,), "sinebow colours", kind="real", finite=True)
    ctx.equal(np.asarray(a), a0, "the argument was modified:")
    ctx.require(np.all(r >= 0) and np.all(r <= 1), "colours outside [0, 1]")
    ctx.close(r.sum(-1), np.full(a0.shape, 1.5), 1e-9, "sum of the channels")
    ctx.close(ctx.call(C.to_sinebow, a0 + TAU), r, 1e-9, "one turn further")
    ctx.close(ctx.call(C.to_sinebow, a0 - 3 * TAU), r, 1e-9, "three turns back")
    # continuity and faithfulness, also across 0 = 2*pi
    flat = a0.ravel()
    R = r.reshape(-1, 3)
    if flat.size:
        g = rng(case["seed"], 2)
        for h in (1e-3, 0.1, 1.0, np.pi):
            s = np.asarray(ctx.call(C.to_sinebow, (flat + h) % TAU))
            dist = np.linalg.norm(s - R, axis=-1)
            ctx.require(np.all(dist <= 1.5 * h), lambda: "colours %.3f apart for angles %.3f apart" % (dist.max(), h))
            ctx.require(np.all(dist >= 0.2 * h), lambda: "colours only %.5f apart for angles %.3f apart" % (dist.min(), h))
        j = g.permutation(flat.size)
        gap = np.abs((flat - flat[j] + np.pi) % TAU - np.pi)
        dist = np.linalg.norm(R - R[j], axis=-1)
        ctx.require(np.all(dist >= 0.2 * gap - 1e-9) and np.all(dist <= 1.5 * gap + 1e-9), "colour distances do not follow the angles")
    ctx.nontrivial(len(np.unique(flat)) >= 2)
    ctx.label("shape %s" % (tuple(case["shape"]),))


def level_strategy():
    return st.fixed_dictionaries({
        "n": sizes(st.integers(1, 60), 2000), "levels": sizes(st.integers(1, 12), 200), "smoothing": mix(st.just(0), st.just(0.0), grid(0.05, 3, 20), st.sampled_from([0.01, 0.25])),
        "factor": st.sampled_from([1.5, 2.0, 5.0]), "seed": SEED, "defaults": st.sampled_from([False, False, False, True]),
        "kind": st.sampled_from(["random", "fine", "one"]),
    })


def check_level(case, ctx):
    g = rng(case["seed"])
    n, k = case["n"], case["levels"]
    s = case["smoothing"]
    if case["defaults"]:
        k, s = 4, 0.25
    # position within half level sets, kept away from the jumps
    pos = g.random(n) * 2 * k
    if case["kind"] == "fine":
        pos = (np.arange(n) + 0.5) / n * 2 * k
    pos = np.floor(pos) + np.clip(pos - np.floor(pos), 1e-6, 1 - 1e-6)
    a = pos / (2 * k) * TAU
    a0 = a.copy()

    def call(x, sm=s):
        if case["defaults"] and sm == s:
            return ctx.array(ctx.call(C.levelset_coloring, x), x.shape, "level sets", kind="real", finite=True)
        return ctx.array(ctx.call(C.levelset_coloring, x, n_levelsets=k, smoothing=sm), x.shape, "level sets", kind="real", finite=True)

    r = call(a)
    ctx.equal(a, a0, "the argument was modified:")
    ctx.require(np.all(r >= 0) and np.all(r <= 1), "level-set colours outside [0, 1]")
    ctx.nontrivial(n >= 2)
    ctx.label("smooth" if s else "sharp", "levels=%d" % k)
    shift = (pos + 2 * int(g.integers(1, k + 1))) % (2 * k) / (2 * k) * TAU
    ctx.close(call(shift), r, 1e-7 + (2e-6 / s if s else 0), "repeated after whole level sets")
    whole = call(np.array([0.0, TAU]))
    ctx.require(np.all((whole >= 0) & (whole <= 1)), "level-set colours outside [0, 1]")
    if not s:
        ctx.require(whole[0] == whole[1], lambda: "sharp level sets: angles 0 and 2*pi have values %r and %r" % (whole[0], whole[1]))
        want = np.floor(pos) % 2
        if not np.array_equal(r, want) and not np.array_equal(r, 1 - want):
            i = int(np.argmax(r != want))
            ctx.fail("sharp level sets: angle %r (arc %d of %d) has value %r" % (a[i], int(np.floor(pos[i])), 2 * k, r[i]))
        return
    ctx.close(whole[0], whole[1], 1e-6, "angles 0 and 2*pi")
    # symmetric about the middle of the level set
    y = pos % 2
    mirror = (np.floor(pos / 2) * 2 + 2 - y) / (2 * k) * TAU
    ctx.close(call(mirror), r, 1e-7 + 1e-6 / s, "mirrored within the level set")
    # the level sets and the arcs between them play opposite roles
    ctx.close(call((pos + 1) % (2 * k) / (2 * k) * TAU), 1 - r, 1e-7 + 2e-6 / s, "half a level set further, against the complement")
    # monotone from edge to middle
    h = np.minimum(y, 2 - y)
    o = np.argsort(h)
    v = r[o]
    ctx.require(np.all(np.diff(v) >= -1e-12 - 1e-11 / s), "not rising from the edge of a level set to its middle")
    ladder = np.linspace(0, 1, 9)
    lv = call((ladder + 2 * int(g.integers(0, k))) / (2 * k) * TAU)
    if s >= 0.05:
        ctx.require(np.all(np.diff(lv) > 0), "not strictly rising from the edge of a level set to its middle")
    # gentler with more smoothing
    lw = call((ladder + 2 * int(g.integers(0, k))) / (2 * k) * TAU, s * case["factor"])
    ctx.require(lw[-1] - lw[0] <= lv[-1] - lv[0] + 1e-9, "more smoothing makes the level sets sharper")
    if s >= 0.1:
        ctx.require(lw[-1] - lw[0] < lv[-1] - lv[0], "more smoothing does not make the level sets gentler")


TESTS = [
    Test("sinebow", sine_strategy, check_sine, quick=3000, thorough=80000),
    Test("levelsets", level_strategy, check_level, quick=4000, thorough=100000),
]
