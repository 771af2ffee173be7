"""One shard of a check, or the replay of one case, in its own process."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import hashlib

from . import boot
from .core import Ctx, Violation, Discard, HarnessError, digest, short

SHRINK_S = 40.0


def load(prop):
    return importlib.import_module("props." + prop.lower())


def _int_seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_case(test, case, ctx):
    """None when the case passes (or is discarded); the Violation otherwise."""
    try:
        test.check(case, ctx)
        return None
    except Discard as d:
        ctx.discarded = str(d)
        ctx.is_nontrivial = False
        return None
    except Violation as v:
        return v


class Shard:
    def __init__(self, a):
        self.a = a
        self.t0 = time.time()
        self.res = {"tests": {}, "labels": {}, "hashes": [], "samples": [], "failure": None,
                    "evaluations": 0, "discards": {}, "skipped": 0, "error": None}
        self.hashes = set()
        self.beat = open(a.out + ".beat", "w")

    def heartbeat(self, test, case):
        self.beat.seek(0)
        s = json.dumps({"test": test.name, "case": case, "t": time.time()})
        self.beat.write(s + "\n" + "\n")
        self.beat.truncate()
        self.beat.flush()

    def one(self, test, case, record=True):
        ctx = Ctx(mode=self.a.mode, tier=self.a.tier)
        self.heartbeat(test, case)
        v = run_case(test, case, ctx)
        if record:
            r = self.res
            r["evaluations"] += 1
            t = r["tests"].setdefault(test.name, {"evaluations": 0, "discards": 0, "nontrivial": 0})
            t["evaluations"] += 1
            if ctx.discarded:
                t["discards"] += 1
                r["discards"][ctx.discarded] = r["discards"].get(ctx.discarded, 0) + 1
            for l in set(ctx.labels):
                r["labels"][l] = r["labels"].get(l, 0) + 1
            if ctx.is_nontrivial:
                h = digest([test.name, case])
                if h not in self.hashes:
                    self.hashes.add(h)
                    t["nontrivial"] += 1
                    if t["nontrivial"] in (1, 4, 16) and len(r["samples"]) < 12:
                        r["samples"].append({"test": test.name, "case": case if len(json.dumps(case)) < 1500 else short(case, 1500),
                                             "observed": json.loads(json.dumps(ctx.notes, default=str)), "labels": sorted(set(ctx.labels))})
        return v

    def fail(self, test, case, v, history=None):
        self.res["failure"] = {"test": test.name, "case": case, "message": str(v), "mode": self.a.mode,
                               "history": history}

    def run(self, mod):
        a = self.a
        for test in mod.TESTS:
            if a.mode not in test.modes or (a.only and test.name != a.only):
                continue
            if self.out_of_time():
                self.res["skipped"] += 1
                continue
            if self.run_fixed(test) or self.run_generated(test):
                return

    def out_of_time(self):
        return time.time() - self.t0 > self.a.budget

    def run_fixed(self, test):
        a = self.a
        cases = list(test.fixed() if callable(test.fixed) else test.fixed)
        if a.tier == "thorough":
            cases += list(test.fixed_thorough() if callable(test.fixed_thorough) else test.fixed_thorough)
        # fixed cases are spread over the shards of the first mode of the test
        if test.modes[0] != a.mode:
            return False
        for i, case in enumerate(cases):
            if i % a.of != a.shard:
                continue
            if self.out_of_time():
                self.res["skipped"] += 1
                continue
            v = self.one(test, case)
            if v is not None:
                self.fail(test, case, v)
                return True
        return False

    def run_generated(self, test):
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase, given

        a = self.a
        total = test.thorough if a.tier == "thorough" else test.quick
        if len(test.modes) > 1:
            total = total * (test.weight if a.mode == "nojit" else 1 - test.weight)
        n = -(-int(round(total)) // a.of) if total > 0 else 0
        if n <= 0:
            return False
        state = {"best": None, "t_fail": None, "failing": {}, "history": [], "done": False}
        t_test = time.time()

        def body(case):
            now = time.time()
            h = digest(case)
            if state["t_fail"] is None:
                if self.out_of_time() or (test.max_s and now - t_test > test.max_s):
                    self.res["skipped"] += 1
                    return
                state["history"].append(case)
                v = self.one(test, case)
                if v is None:
                    return
                state["t_fail"] = now
            else:
                if h in state["failing"]:
                    raise Violation(state["failing"][h][1])
                if now - state["t_fail"] > SHRINK_S:
                    return
                v = self.one(test, case, record=False)
                if v is None:
                    return
            state["failing"][h] = (case, str(v))
            state["best"] = (case, v)
            raise v

        wrapped = given(test.strategy())(body)
        wrapped = settings(
            max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
            stateful_step_count=50,
        )(wrapped)
        wrapped = hypothesis.seed(_int_seed(a.seed, a.prop, test.name, a.mode, a.shard))(wrapped)
        try:
            wrapped()
        except Violation:
            pass
        except BaseException as e:
            if state["best"] is None or isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
        if state["best"] is not None:
            # the smallest failing case met (Hypothesis ends on it; take the shortest to be safe)
            cases = sorted(state["failing"].values(), key=lambda cv: len(json.dumps(cv[0])))
            case, msg = cases[0]
            first = [c for c in state["history"]][-1]
            self.fail(test, case, msg, history=state["history"][-400:])
            self.res["failure"]["first"] = first
            return True
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--mode", default="jit")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--of", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=600)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a))
    sh = None
    try:
        boot.import_sut(memo=True)
        mod = load(a.prop)
        getattr(mod, "prepare", lambda: None)()
        sh = Shard(a)
        sh.run(mod)
        res = sh.res
        res["hashes"] = sorted(sh.hashes)
    except BaseException:
        res = sh.res if sh else {}
        if sh:
            res["hashes"] = sorted(sh.hashes)
        res["error"] = traceback.format_exc()
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(a.out + ".tmp", a.out)


def replay(a):
    """Exit 1 when the recorded case (or sequence of cases) still breaks the property, 0 when it does not."""
    with open(a.replay) as f:
        rec = json.load(f)
    boot.import_sut(memo=False)
    mod = load(rec["property"])
    getattr(mod, "prepare", lambda: None)()
    tests = {t.name: t for t in mod.TESTS}
    test = tests[rec["test"]]
    cases = rec["sequence"] if rec.get("sequence") else [rec["case"]]
    for case in cases:
        ctx = Ctx(mode="jit", tier="replay", replay=True)
        v = run_case(test, case, ctx)
        if v is not None:
            print("REPRODUCED: " + str(v))
            return 1
    print("NOT REPRODUCED")
    return 0


if __name__ == "__main__":
    main()
