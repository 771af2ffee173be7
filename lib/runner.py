"""Run one check: shards in parallel, confirmation of failures in fresh processes, evidence."""
import json
import os
import shutil
import signal
import subprocess
import sys
import time

from . import boot
from .core import digest, short

HANG_S = 110
N_WORKERS = 8
# the machinery never adds to this file
KNOWN = os.path.join(boot.ROOT, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """Lines 'finding: property=<id> case=<digest> <what fails>' of the known-findings file."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split("case=", 1)[1].strip()
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


def plan(mod):
    """How many workers of which mode: [(mode, count)]"""
    modes = set()
    for t in mod.TESTS:
        modes.update(t.modes)
    if modes == {"jit"}:
        return [("jit", N_WORKERS)]
    if modes == {"nojit"}:
        return [("nojit", N_WORKERS)]
    nj = getattr(mod, "JIT_WORKERS", 3)
    return [("jit", nj), ("nojit", N_WORKERS - nj)]


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def spawn(args, env, log):
    return subprocess.Popen([boot.PYTHON, "-m", "lib.worker"] + args, cwd=boot.ROOT, env=env,
                            stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


# properties whose replays run as they were found (their model is a process that has run nothing yet)
UNCOMPILED = {"C13"}


def replay_file(prop, path, scratch, timeout=200):
    """('yes'|'no'|'hang'|'error', text)"""
    # a module that compares with a fresh process replays what it found uncompiled without the compiler
    with open(path) as fh:
        jit = json.load(fh).get("jit", True)
    env = boot.child_env(scratch, jit=jit)
    p = subprocess.Popen([boot.PYTHON, "-m", "lib.worker", prop, "--replay", path], cwd=boot.ROOT, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", "did not finish within %d s" % timeout
    if p.returncode == 1 and "REPRODUCED: " in out and "NOT REPRODUCED" not in out:
        return "yes", out.split("REPRODUCED: ", 1)[1].strip()
    if p.returncode == 0:
        return "no", out
    return "error", out


def main(prop, tier, seed):
    t0 = time.time()
    boot.ensure_deps()
    sys.path.insert(0, boot.ROOT)
    sys.path.insert(0, boot.DEPS)
    scratch = os.path.join(boot.ROOT, ".scratch", "%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    try:
        return _main(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def describe(prop, scratch):
    """Modes and metadata of a property module, without importing numpy etc. here twice."""
    code = (
        "import json,sys;from lib import boot;boot.import_sut();from lib.worker import load;"
        "m=load(%r);from lib.runner import plan;"
        "print('META'+json.dumps({'plan':plan(m),'rule':m.RULE,'assumptions':getattr(m,'ASSUMPTIONS',[])}))" % prop
    )
    env = boot.child_env(scratch)
    env["NUMBA_DISABLE_JIT"] = "1"
    r = subprocess.run([boot.PYTHON, "-c", code], cwd=boot.ROOT, env=env, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("META"):
            return json.loads(line[4:])
    sys.stderr.write(r.stdout + r.stderr)
    return None


def _main(prop, tier, seed, scratch, t0):
    meta = describe(prop, scratch)
    if meta is None:
        print("ERROR: the property module could not be loaded")
        return 2
    budget = float(os.environ.get("VERIF_BUDGET", 1500 if tier == "thorough" else 150))
    jobs = []
    for mode, count in meta["plan"]:
        for i in range(count):
            out = os.path.join(scratch, "%s-%d.json" % (mode, i))
            log = open(out + ".log", "w")
            p = spawn([prop, "--mode", mode, "--shard", str(i), "--of", str(count), "--seed", str(seed),
                       "--tier", tier, "--budget", str(budget), "--out", out],
                      boot.child_env(scratch, jit=(mode == "jit")), log)
            jobs.append({"p": p, "out": out, "mode": mode, "hang": None})
    # wait, watching for cases that do not come back
    while any(j["p"].poll() is None for j in jobs):
        time.sleep(0.1)
        for j in jobs:
            if j["p"].poll() is not None or not os.path.exists(j["out"] + ".beat"):
                continue
            age = time.time() - os.path.getmtime(j["out"] + ".beat")
            if age > HANG_S:
                try:
                    cur = json.loads(open(j["out"] + ".beat").read().strip().splitlines()[0])
                except Exception:
                    cur = None
                kill(j["p"])
                j["hang"] = cur
        # one shard has a failure: the others need not go on for long
        if any(os.path.exists(j["out"]) and _has_failure(j["out"]) for j in jobs):
            grace = time.time() + (20 if tier == "quick" else 60)
            while time.time() < grace and any(j["p"].poll() is None for j in jobs):
                time.sleep(0.1)
            for j in jobs:
                if j["p"].poll() is None:
                    kill(j["p"])
            break

    results, errors, failures = [], [], []
    for j in jobs:
        if os.path.exists(j["out"]):
            r = json.load(open(j["out"]))
            results.append(r)
            if r.get("error"):
                errors.append("%s: %s" % (os.path.basename(j["out"]), r["error"]))
            if r.get("failure"):
                failures.append(r["failure"])
        elif j["hang"]:
            failures.append({"test": j["hang"]["test"], "case": j["hang"]["case"], "mode": j["mode"],
                             "message": "the call did not return", "hang": True})
        elif j["p"].returncode not in (-9,):
            errors.append("%s: died with code %s\n%s" % (os.path.basename(j["out"]), j["p"].returncode,
                                                          open(j["out"] + ".log").read()[-2000:]))
    # native crash of a worker on a particular case counts as a failure candidate of that case
    for j in jobs:
        rc = j["p"].returncode
        if rc is not None and rc < 0 and rc != -9 and os.path.exists(j["out"] + ".beat"):
            try:
                cur = json.loads(open(j["out"] + ".beat").read().strip().splitlines()[0])
                failures.append({"test": cur["test"], "case": cur["case"], "mode": j["mode"],
                                 "message": "the process was ended by signal %d" % -rc, "crash": True})
            except Exception:
                pass

    confirmed, unconfirmed, suppressed = confirm(prop, failures, scratch, seed, tier)
    write_evidence(prop, tier, seed, meta, results, confirmed, unconfirmed, suppressed, time.time() - t0)
    for what in sorted(set(suppressed)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for u in unconfirmed:
        print("note: not reproduced in a fresh process, not reported: [%s] %s" % (u["test"], short(u["message"], 300)))
    tot = sum(r.get("evaluations", 0) for r in results)
    nt = len(set(h for r in results for h in r.get("hashes", [])))
    skipped = sum(r.get("skipped", 0) for r in results)
    print("%s [%s, seed %d]: %d cases, %d distinct non-trivial, %d left out for time, %.1f s"
          % (prop, tier, seed, tot, nt, skipped, time.time() - t0))
    if confirmed:
        for c in confirmed:
            print("[%s] %s" % (c["test"], short(c["message"], 1500)))
            print("VIOLATION property=%s replay=%s" % (prop, c["replay"]))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR " + e)
        return 2
    if tot == 0:
        print("ERROR: nothing was run")
        return 2
    return 0


def _has_failure(path):
    try:
        return bool(json.load(open(path)).get("failure"))
    except Exception:
        return False


def confirm(prop, failures, scratch, seed, tier):
    known = known_findings(prop)
    confirmed, unconfirmed, suppressed = [], [], []
    rdir = os.path.join(boot.ROOT, "replays")
    t_end = time.time() + 400
    # smallest first; one confirmed failure per test is enough
    failures = sorted(failures, key=lambda f: (bool(f.get("hang")), len(json.dumps(f["case"]))))
    seen = set()
    for f in failures:
        if f["test"] in seen or time.time() > t_end:
            continue
        os.makedirs(rdir, exist_ok=True)
        candidates = [(f["case"], None)]
        if f.get("first") is not None and f["first"] != f["case"]:
            candidates.append((f["first"], None))
        if f.get("history"):
            candidates.append((f["case"], f["history"]))
        ok = False
        for case, seq in candidates:
            key = digest([f["test"], case])
            if key in known:
                suppressed.append(known[key])
                ok = True
                break
            rec = {"property": prop, "test": f["test"], "case": case, "message": f["message"],
                   "seed": seed, "tier": tier, "found_in": f["mode"]}
            if prop in UNCOMPILED and f["mode"] == "nojit":
                rec["jit"] = False
            if seq:
                rec["sequence"] = seq
            path = os.path.join(rdir, "%s-%s-%s%s.json" % (prop, f["test"], key, "-seq" if seq else ""))
            with open(path, "w") as fh:
                json.dump(rec, fh, indent=1)
            attempts = 2 if not seq else 1
            for _ in range(attempts):
                got, text = replay_file(prop, path, scratch)
                if got == "yes" or (got == "hang" and f.get("hang")) or (got == "error" and f.get("crash")):
                    rec["message"] = text if got == "yes" else f["message"]
                    with open(path, "w") as fh:
                        json.dump(rec, fh, indent=1)
                    confirmed.append({"test": f["test"], "replay": os.path.relpath(path, boot.ROOT),
                                      "message": rec["message"]})
                    seen.add(f["test"])
                    ok = True
                    break
                if got == "hang":
                    break
            if ok:
                break
            os.remove(path)
        if not ok:
            unconfirmed.append({"test": f["test"], "message": f["message"], "mode": f["mode"], "case": f["case"]})
    return confirmed, unconfirmed, suppressed


def write_evidence(prop, tier, seed, meta, results, confirmed, unconfirmed, suppressed, wall):
    labels, tests, discards = {}, {}, {}
    samples, hashes, evals, skipped = [], set(), 0, 0
    for r in results:
        evals += r.get("evaluations", 0)
        skipped += r.get("skipped", 0)
        hashes.update(r.get("hashes", []))
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r.get("discards", {}).items():
            discards[k] = discards.get(k, 0) + v
        for k, v in r.get("tests", {}).items():
            t = tests.setdefault(k, {"evaluations": 0, "discards": 0})
            for kk in t:
                t[kk] += v[kk]
        samples.extend(r.get("samples", []))
    per = {}
    chosen = []
    for s in samples:
        if per.get(s["test"], 0) < 2:
            per[s["test"]] = per.get(s["test"], 0) + 1
            chosen.append(s)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"],
            "samples": chosen[:16],
            "per_test": tests,
            "classes": dict(sorted(labels.items())),
            "discarded": dict(sorted(discards.items())),
            "left_out_for_time": skipped,
            "unconfirmed_failures": [short(u["message"], 300) for u in unconfirmed],
            "known_findings_met": sorted(set(suppressed)),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    edir = os.path.join(boot.ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, prop + ".json"))
