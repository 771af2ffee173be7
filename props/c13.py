"""C13: histories of constructions and queries over several objects."""
import io
import contextlib
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords, pristine
from lib.core import Ctx
import os
from lib.strat import SEED

RULE = (
    "A case is a history of 4 to 16 steps over up to 5 objects of the five kinds on 3 data sets (often of the same size, or the same points in another order; the same array may serve several objects): "
    "construct an object, query one with random parameters (also parameters that are refused), read a representative, overwrite an array returned earlier, reseed the global generator, ask another object the same, ask the same object again with exactly one argument changed (perhaps by little). "
    "The model of every answer is a fresh object on a copy of the data that answers this query alone, in a fresh process (forked before anything was computed) and again, in this process, after the history. "
    "Non-trivial: some object answers at least two different queries, or two objects share a data set, and at least two queries return coordinates."
)
ASSUMPTIONS = ["a representative is read only after copying; overwriting the internal store is not part of the interface"]

KINDS = ["circular", "toroidal", "projective", "cp", "lens", "cp"]
FLAT = ["circle", "circle", "ellipse", "fig8", "twocircles", "threecircles", "clifford", "annulus", "random", "graph", "klein", "rp2",
        "flag:cone3", "flag:cone2", "flag:tele3", "flag:mix3", "flag:theta", "flag:torus", "flag:cycle"]
SOLID = ["sphere", "flag:susp_cycle", "flag:octahedron", "sphere", "flag:icosahedron", "flag:susp_cycle", "ball", "flag:susp_theta"]

QUERY = st.fixed_dictionaries({
    "op": st.just("query"), "obj": st.sampled_from([0, 0, 1, 1, 2, 3, 4]), "perc": st.sampled_from([0.5, 0.9, 0.1, 0.75, 0.25, 0.99]),
    "cls": st.integers(0, 3), "more": st.lists(st.integers(0, 4), max_size=3), "std": st.sampled_from([False] * 5 + [True]),
    "bump": st.sampled_from(["linear", "linear", "quadratic", "exp", "ones"]), "check": st.booleans(),
    "keep": st.sampled_from([None, None, 0, 1, 2, 3, 99]), "mode": st.sampled_from(["exponential", "direct", "one-by-one"]),
    "wrong": st.sampled_from([None] * 14 + ["class", "bump", "mode", "type"]),
})
NEW = st.fixed_dictionaries({"op": st.just("new"), "kind": st.sampled_from(KINDS), "data": st.integers(0, 2), "prime": st.sampled_from([41, 3, 3, 5, 2]),
                             "share": st.booleans(), "verbose": st.sampled_from([False, False, True])})
OTHER = st.fixed_dictionaries({"op": st.sampled_from(["scribble", "scribble", "read", "reseed", "dgms", "echo", "echo", "echo"]), "obj": st.integers(0, 4), "which": st.integers(0, 20)})
ALTER = st.fixed_dictionaries({"op": st.just("alter"), "what": st.sampled_from(["perc", "perc", "cls", "more", "std", "bump", "check", "keep", "mode"]), "by": st.sampled_from([1e-2, 1e-3, 1e-5, -1e-2, -1e-4]), "k": st.integers(1, 3)})


def strategy():
    def with_n(n):
        extra = {"noise": st.sampled_from([0.3, 0.6]), "size": st.integers(0, 7)}
        flat, solid = data.recipe(FLAT, n=(n, n), extra=extra), data.recipe(SOLID, n=(n, n), extra=dict(extra, noise=st.sampled_from([0.05, 0.3])))
        return st.fixed_dictionaries({
            "data": st.tuples(flat, flat, solid).map(list),
            "twins": st.sampled_from(["relabel", "sample", False, "relabel"]),
            "first": st.lists(NEW, min_size=1, max_size=3),
            "ops": st.lists(st.one_of(QUERY, QUERY, QUERY, ALTER, NEW, OTHER), min_size=4, max_size=13),
            "seed": SEED,
        })
    return st.integers(6, 14).flatmap(with_n)


def solid_strategy():
    """Two objects in degree 2, of the same size and scale but with different complexes, asked the same in turn."""
    extra = {"noise": st.sampled_from([0.05, 0.3]), "size": st.integers(0, 7)}
    rec = lambda n: data.recipe(SOLID, n=(n, n), pres=("rect", "rect", "points", "square"), extra=dict(extra, frac=st.sampled_from([0.35, 0.5, 0.7])))
    first = st.fixed_dictionaries({"op": st.just("new"), "kind": st.just("cp"), "data": st.just(2), "prime": st.sampled_from([41, 3, 5]), "share": st.booleans(), "verbose": st.just(False)})
    ask = QUERY.map(lambda q: dict(q, obj=q["obj"] % 2, wrong=None, std=False))
    return st.integers(7, 12).flatmap(lambda n: st.fixed_dictionaries({
        "data": st.tuples(rec(n), rec(n), rec(n)).map(list), "twins": st.just("relabel"), "first": first.map(lambda f: [f]),
        "ops": st.lists(st.one_of(ask, ask, ALTER, OTHER), min_size=1, max_size=4), "seed": SEED,
    }))


class Obj:
    pass


def arguments(o, q):
    """The query's arguments for an object, from its numbers of classes."""
    n = o.classes
    kw = {"perc": q["perc"], "partunity_fn": coords.bump(q["bump"]), "standard_range": q["std"]}
    cls = q["cls"] % n if n else 0
    if o.kind == "toroidal":
        kw["cocycle_idxs"] = list(dict.fromkeys([cls] + [i % n for i in q["more"]])) if n else [0]
    else:
        kw["cocycle_idx"] = cls
    if o.kind in ("circular", "toroidal", "cp"):
        kw["check_cocycle_condition"] = q["check"]
    name = {"projective": "proj_dim", "cp": "proj_dim", "lens": "complex_dim"}.get(o.kind)
    if name:
        if q["keep"] is not None:
            keep = min(q["keep"], o.L)
            kw[name] = max(keep, 1) if o.kind == "lens" else min(keep, o.L - 1)
        kw["projective_dim_red_mode"] = q["mode"]
    w = q["wrong"]
    if w == "class":
        kw["cocycle_idxs" if o.kind == "toroidal" else "cocycle_idx"] = [n + 3] if o.kind == "toroidal" else n + 3
    elif w == "bump":
        kw["partunity_fn"] = broken
    elif w == "mode" and name:
        kw["projective_dim_red_mode"] = "sideways"
    elif w == "type":
        kw["cocycle_idxs" if o.kind == "toroidal" else "cocycle_idx"] = ["0"] if o.kind == "toroidal" else "0"
    return kw


def altered(q, op):
    """A query that differs from another one in one argument, perhaps by little."""
    q, what = dict(q), op["what"]
    if what == "perc":
        q["perc"] = float(np.clip(q["perc"] + op["by"], 0, 1))
    elif what == "cls":
        q["cls"] += op["k"]
    elif what == "more":
        q["more"] = list(reversed(q["more"])) + [op["k"]]
    elif what in ("std", "check"):
        q[what] = not q[what]
    else:
        choices = {"bump": ["linear", "quadratic", "exp", "ones"], "mode": ["exponential", "direct", "one-by-one"], "keep": [None, 0, 1, 2, 3, 99]}[what]
        q[what] = choices[(choices.index(q[what]) + op["k"]) % len(choices)]
    return q


def fresh(req):
    """The answer of a new object to one query (runs in a process that has computed nothing else)."""
    d = data.Data()
    d.X, d.dm, d.nl = req["X"], req["dm"], req["nl"]
    ctx = Ctx(mode="nojit", tier="model")
    o = build(d, req["spec"], ctx)
    return copies(query(ctx, o.c, arguments(o, req["query"])))


def prepare():
    """Called once the code under test is imported, before any case runs."""
    if os.environ.get("NUMBA_DISABLE_JIT") == "1":
        pristine.start(fresh)


def build(d, spec, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        c = coords.make(spec["kind"], d, ctx, prime=spec["prime"], verbose=spec["verbose"])
    o = Obj()
    o.c, o.kind, o.spec, o.X = c, spec["kind"], spec, d.X
    o.L = d.nl
    o.classes = classes(o.kind, c)
    o.dgms = [np.array(x) for x in c.dgms_]
    return o


def broken(ds, r):
    raise ValueError("no bump today")


def classes(kind, c):
    d = c.dgms_[2 if kind == "cp" else 1]
    return len(d)


def query(ctx, c, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.outcome(c.get_coordinates, **kw)


def arrays(value):
    """The arrays of an answer (toroidal ones are lists of arrays)."""
    return list(value) if isinstance(value, (list, tuple)) else [value]


def copies(out):
    if out[0] == "ok":
        return ("ok", [np.array(a) for a in arrays(out[1])], sorted(set(out[2])))
    return out


def differ(a, b):
    """None when two answers agree, otherwise what differs."""
    if a[0] != b[0]:
        return "%s instead of %s" % (describe(a), describe(b))
    if a[0] == "raised":
        return None if a[1] == b[1] and a[2] == b[2] else "%s instead of %s" % (describe(a), describe(b))
    if len(a[1]) != len(b[1]):
        return "%d coordinates instead of %d" % (len(a[1]), len(b[1]))
    cov = [m for m in a[2] if "not covered" in m], [m for m in b[2] if "not covered" in m]
    if cov[0] != cov[1]:
        return "warnings %s instead of %s" % cov
    for x, y in zip(a[1], b[1]):
        if x.shape != y.shape or x.dtype != y.dtype:
            return "an array of shape %s (%s) instead of %s (%s)" % (x.shape, x.dtype, y.shape, y.dtype)
        if np.array_equal(x, y, equal_nan=True):
            continue
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return "undefined entries differ"
        d = np.abs(x - y)
        if x.dtype.kind == "f" and x.ndim == 1:
            d = np.minimum(d, np.abs(2 * np.pi - d))
        if np.nanmax(d) > 1e-7:
            return "a difference of %.3g at %s" % (np.nanmax(d), np.unravel_index(int(np.nanargmax(d)), d.shape))
    return None


def describe(a):
    return "coordinates" if a[0] == "ok" else "%s: %s" % (a[1], a[2][:150])


def check(case, ctx):
    sets = []
    recs = list(case["data"])
    if case["twins"] in (True, "sample"):
        # another sample of the same space
        recs[1] = dict(recs[0], seed=recs[1]["seed"])
    for rec in recs:
        d = data.build(rec)
        d.keep = np.array(d.X, copy=True, order="K")
        sets.append(d)
    rnd = np.random.RandomState(case["seed"] % 2**31)
    base = 2 if case["first"][0]["kind"] == "cp" else 0
    a = sets[base]
    rect = a.dm and a.X.shape[0] != a.X.shape[1]
    if case["twins"] == "relabel" and not (rect and a.X.shape[0] != a.nl):
        # the same points in another order: the same sizes, distances and scales, another complex
        d = data.Data()
        p = rnd.permutation(a.X.shape[0])
        d.X = np.array(a.X[p][:, np.concatenate([p, np.arange(len(p), a.X.shape[1])])] if a.dm else a.X[p])
        d.dm, d.nl, d.keep = a.dm, a.nl, np.array(d.X, copy=True, order="K")
        d.twin = True
        sets[1] = d
        ctx.label("relabelled twin")

    def construct(spec, fresh):
        d = sets[spec["data"]]
        e = data.Data()
        e.X = np.array(d.keep, copy=True, order="K") if fresh or not spec["share"] else d.X
        e.dm, e.nl = d.dm, d.nl
        return build(e, spec, ctx)

    # lay out the history first: which object, which arguments
    def settle(spec):
        # complex projective coordinates live on the third data set, mostly
        spec = dict(spec)
        if spec["kind"] == "cp" and not (spec["data"] == 0 and len(sets[0].X) <= 8):
            spec["data"] = 2
        elif spec["kind"] != "cp" and spec["data"] == 2:
            spec["data"] = 0 if spec["prime"] != 5 else 2
        return spec

    specs, plan = [], []
    for spec in case["first"]:
        spec = settle(spec)
        specs.append(spec)
        plan.append(("new", spec))
    mirror = case["twins"] == "relabel" and hasattr(sets[1], "twin")
    if mirror:
        # a second object of the first kind on the relabelled points
        specs[0] = dict(specs[0], data=base)
        plan[0] = ("new", specs[0])
        specs.insert(1, dict(specs[0], data=1))
        plan.insert(1, ("new", specs[1]))
    for op in case["ops"]:
        if op["op"] == "query" and mirror and op["obj"] % len(specs) < 2:
            plan.append(("query", op["obj"] % len(specs), op))
            plan.append(("query", 1 - op["obj"] % len(specs), op))
        elif op["op"] == "new":
            if len(specs) < 5:
                specs.append(settle(op))
                plan.append(("new", specs[-1]))
        elif op["op"] == "echo":
            # the previous query again, on another object
            last = [s for s in plan if s[0] == "query"]
            if last:
                plan.append(("query", op["obj"] % len(specs), last[-1][2]))
        elif op["op"] == "alter":
            # the previous query again, on the same object, with exactly one argument changed
            last = [s for s in plan if s[0] == "query"]
            if last:
                plan.append(("query", last[-1][1], altered(last[-1][2], op)))
                ctx.label("altered " + op["what"])
        elif op["op"] == "query":
            plan.append(("query", op["obj"] % len(specs), op))
        else:
            plan.append((op["op"], op["obj"] % len(specs), op["which"]))
    queries = [(i, st_) for i, st_ in enumerate(plan) if st_[0] == "query"]
    if not queries:
        ctx.discard("no query")

    def alone(i, step):
        # the model: a fresh object that answers this query alone
        o = construct(dict(specs[step[1]], share=False), True)
        return copies(query(ctx, o.c, arguments(o, step[2])))

    model = {}
    for i, step in reversed(queries):
        if pristine.running():
            # the model of the model: a process in which nothing has been computed yet
            spec = specs[step[1]]
            d = sets[spec["data"]]
            got, value = pristine.ask({"X": d.keep, "dm": d.dm, "nl": d.nl, "spec": spec, "query": step[2]})
            if got == "answer":
                model[i] = value
                ctx.label("fresh process")
                continue
        if i % 2:
            model[i] = alone(i, step)
    objs, outputs, answered = [], [], {}
    n_ok = 0

    def audit(after):
        for d in sets:
            ctx.require(d.X.dtype == d.keep.dtype and np.array_equal(d.X, d.keep), "%s modified the input data" % after)
        for o in objs:
            ctx.require(np.array_equal(o.X, sets[o.spec["data"]].keep), "%s modified the input data" % after)
            for a, b in zip(o.c.dgms_, o.dgms):
                ctx.require(np.array_equal(a, b), "%s modified the stored diagrams" % after)
        for what, live, snap in outputs:
            for a, b in zip(live, snap):
                ctx.require(np.array_equal(a, b, equal_nan=True), lambda: "%s modified the coordinates returned earlier by %s" % (after, what))

    for i, step in enumerate(plan):
        if step[0] == "new":
            o = construct(step[1], False)
            objs.append(o)
            audit("constructing an object")
        elif step[0] == "query":
            o = objs[step[1]]
            kw = arguments(o, step[2])
            passed = {a: list(v) for a, v in kw.items() if isinstance(v, list)}
            out = query(ctx, o.c, kw)
            for a, v in passed.items():
                ctx.require(kw[a] == v, lambda: "the list %s passed as %s was changed to %s" % (v, a, kw[a]))
            snap = copies(out)
            what = "query %d (%s)" % (i, o.kind)
            audit(what)
            if out[0] == "ok":
                live = [a for a in arrays(out[1]) if isinstance(a, np.ndarray)]
                outputs.append([what, live, [np.array(a) for a in live]])
                n_ok += 1
                ctx.label("answered " + o.kind)
            else:
                ctx.label("refused (%s)" % (step[2]["wrong"] or "scale or lift"))
            answered[i] = (o, snap)
            if i in model:
                judge(ctx, model[i], snap, i, o, step, construct, specs)
        elif step[0] == "scribble" and outputs:
            rec = outputs[step[2] % len(outputs)]
            for a in rec[1]:
                if a.flags.writeable:
                    a[...] = 0.123
            rec[2] = [np.array(a) for a in rec[1]]
            ctx.label("scribbled")
        elif step[0] == "read":
            o = objs[step[1]]
            if o.classes:
                r = ctx.call(o.c.get_representative_cocycle, int(step[2] % o.classes), 2 if o.kind == "cp" else 1)
                ctx.require((r[0], r[1]) == tuple(o.dgms[2 if o.kind == "cp" else 1][step[2] % o.classes]), "a representative has another bar after the history")
        elif step[0] == "dgms":
            # a user who edits a copy of the diagrams
            for x in objs[step[1]].c.dgms_:
                y = np.array(x)
                y[:] = 0
        elif step[0] == "reseed":
            np.random.seed(rnd.randint(0, 2**31))
    for i, step in queries:
        again = alone(i, step)
        judge(ctx, again, answered[i][1], i, answered[i][0], step, construct, specs)
        if i in model:
            why = differ(again, model[i])
            if why and unstable(ctx, construct, specs, step, again, model[i]):
                why = None
            ctx.require(why is None, lambda: "a fresh object answers differently after the history than before: %s" % why)
    used = [step[1] for _, step in queries]
    shared = len({s["data"] for s in specs}) < len(specs)
    ctx.nontrivial(n_ok >= 2 and (shared or len(used) > len(set(used))))
    ctx.note(objects=[s["kind"] for s in specs], queries=len(queries), answered=n_ok)
    if shared:
        ctx.label("shared data")
    if len({sets[s["data"]].X.shape for s in specs}) < len({s["data"] for s in specs}):
        ctx.label("different data of one size")


def unstable(ctx, construct, specs, step, got, want):
    """Is a reduced answer a matter of rounding (equal eigenvalues, rows projected to nothing)?"""
    if got[0] != "ok" or want[0] != "ok":
        return False
    o = construct(dict(specs[step[1]], share=False), True)
    kw = arguments(o, step[2])
    name = {"projective": "proj_dim", "cp": "proj_dim", "lens": "complex_dim"}.get(o.kind)
    if name is None:
        return False
    keep = kw.get(name, {"projective": 2, "cp": 1, "lens": 2}[o.kind]) + (o.kind != "lens")
    full = query(ctx, o.c, dict(kw, **{name: o.L - (o.kind != "lens")}))
    if full[0] != "ok":
        return False
    V = np.array(full[1])
    ok = ~np.isnan(V).any(1)
    V = V[ok]
    # the axes of the principal components are determined up to rounding only when the eigenvalues differ and the data does not
    # fall into orthogonal parts; inner products do not depend on them
    a, b = got[1][0], want[1][0]
    if a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)):
        a, b = a[ok], b[ok]
        if np.abs(a @ a.conj().T - b @ b.conj().T).max() < 1e-7:
            G = np.abs(V @ V.conj().T)
            ev = np.linalg.eigvalsh(V.conj().T @ V)[::-1]
            gaps = -np.diff(ev)[: max(1, keep)]
            if len(set(ref.components(G > 1e-10))) > 1 or (gaps.size and gaps.min() < 1e-6 * ev[0]):
                return True
    if keep >= o.L:
        return False
    W, gap, short, _ = ref.reduce_rows(V, keep, step[2]["mode"])
    return gap < 1e-6 or short < 1e-4 or ref.sensitivity(V, W, keep, step[2]["mode"]) > 1e-9


def judge(ctx, want, got, i, o, step, construct, specs):
    why = differ(got, want)
    if why and unstable(ctx, construct, specs, step, got, want):
        ctx.label("unstable reduction")
        return
    ctx.require(why is None, lambda: "query %d of the history (%s) gave another answer than a fresh object: %s" % (i, o.kind, why))


TESTS = [
    Test("solid", solid_strategy, check, quick=130, thorough=3000, modes=("nojit",)),
    Test("histories", strategy, check, quick=900, thorough=16000, modes=("nojit", "jit"), weight=0.6),
]
