"""Check driver:  python -m dst.driver check C01 [--tier quick|thorough]
                 python -m dst.driver replay FILE
                 python -m dst.driver setup
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the harness failed (no verdict)."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import build as _build  # noqa: E402

PY = _build.PY
NPROC = int(os.environ.get("DST_NPROC", "8"))
KNOWN = os.path.join(HERE, "known_findings.txt")


def env_for(tree, scratch, hashseed="0", **extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "NUMBA", "DST_"))}
    e.update(DST_TREE=tree, PYTHONPATH=tree + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
             PYTHONHASHSEED=hashseed, NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
             DST_SCRATCH=scratch)
    e.update(extra)
    return e


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:") and f"property={prop} " in line:
                key = [w for w in line.split() if w.startswith("key=")][0][4:]
                out.append((key, line.split(key, 1)[1].strip()))
    return out


def run_batch(prop, tier, seed, tree, scratch, tag, hashseed, indices=None, budget=600):
    procs = []
    n = NPROC if indices is None else min(NPROC, max(1, len(indices)))
    for k in range(n):
        out = os.path.join(scratch, f"{tag}{k}.jsonl")
        extra = {"DST_BUDGET": str(budget)}
        if indices is not None:
            extra["DST_INDICES"] = ",".join(str(x) for x in indices[k::n])
        err = open(os.path.join(scratch, f"{tag}{k}.err"), "w")
        p = subprocess.Popen([PY, "-m", "dst.worker", "batch", prop, tier, str(seed), str(k), str(n), out],
                             env=env_for(tree, scratch, hashseed, **extra), cwd=scratch, stdout=err, stderr=err)
        procs.append((p, out, err.name))
    recs, bad = [], []
    t_end = time.time() + budget + 150
    for p, out, err in procs:
        try:
            rc = p.wait(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        if os.path.exists(out):
            for line in open(out):
                try:
                    recs.append(json.loads(line))
                    if "start" in recs[-1]:
                        recs[-1]["out"] = out
                except ValueError:
                    pass
        if rc != 0:
            last = [r["start"] for r in recs if "start" in r and r.get("out") == out]
            bad.append((rc, open(err).read()[-3000:], last[-1] if last else None))
    recs = [r for r in recs if "start" not in r]
    recs.sort(key=lambda r: r.get("i", r.get("skipped", 0)))
    return recs, bad


def run_one(mode, repfile, tree, scratch, hashseed="0", timeout=300, **extra):
    out = os.path.join(scratch, f"{mode}.out")
    if os.path.exists(out):
        os.unlink(out)
    r = subprocess.run([PY, "-m", "dst.worker", mode, repfile, out], env=env_for(tree, scratch, hashseed, **extra),
                       cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if not os.path.exists(out):
        return None, r.stdout[-3000:]
    return json.load(open(out)), r.stdout[-3000:]


def merge_counts(recs, key):
    tot = {}
    for r in recs:
        for k, v in (r.get(key) or {}).items():
            tot[k] = tot.get(k, 0) + v
    return tot


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = importlib.import_module("props.meta").META[prop]
    scratch = tempfile.mkdtemp(prefix=f"dst-{prop}-")
    try:
        return _check(prop, tier, seed, meta, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, seed, meta, scratch, t0):
    tree = _build.build(scratch)
    t_build = time.time() - t0
    print(f"{prop} tier={tier} VERIF_SEED={seed} build={t_build:.1f}s", flush=True)
    budget = 420 if tier == "quick" else 600
    recs, bad = run_batch(prop, tier, seed, tree, scratch, "a", "0", budget=budget)
    skipped = [r["skipped"] for r in recs if "skipped" in r]
    recs = [r for r in recs if "i" in r]
    t_runs = time.time() - t0 - t_build

    vios = [r for r in recs if r.get("violation")]
    known = known_findings(prop)
    new, seen_known = [], {}
    for r in vios:
        for key, what in known:
            if r["violation"]["cls"] == key:
                seen_known.setdefault(key, what)
                break
        else:
            new.append(r)

    # determinism: a sample of the runs again in fresh interpreters, other hash seed, other process count
    mism, ndet = [], 0
    if not new and not bad and recs:
        step = max(1, len(recs) // meta.get("det_runs", {"quick": 16, "thorough": 64})[tier])
        sel = [r["i"] for r in recs if not r.get("violation")][::step]
        again, bad2 = run_batch(prop, tier, seed, tree, scratch, "b", "4242", indices=sel, budget=150)
        first = {r["i"]: r for r in recs}
        for r in again:
            if "i" in r:
                ndet += 1
                a = first[r["i"]]
                if (a["log"], a["result"]) != (r["log"], r["result"]) or bool(r.get("violation")):
                    mism.append(r["i"])
        bad += bad2

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len({(str(r["key"]), r["sig"]) for r in recs if r["nontrivial"]}),
            "rule": meta["rule"],
            "samples": [{"scenario": r["scenario"], "events": r.get("sample_events")} for r in recs if r.get("scenario")
                        and not r.get("violation")][:3],
            "runs_per_hour": round(len(recs) / max(t_runs, 1e-9) * 3600),
            "seeds_per_hour": round(len({r["seed"] for r in recs}) / max(t_runs, 1e-9) * 3600),
            "simulated_seconds": round(sum(r["sim_time"] for r in recs), 3),
            "faults_fired": merge_counts(recs, "faults"),
            "probes_hit": merge_counts(recs, "probes"),
            "operations": merge_counts(recs, "counters"),
            "distinct_interleavings": len({r["sig"] for r in recs}),
            "interleaving_measure": "sha256 of the sequence of environment decisions taken in a run (worker "
                                    "assignment, task durations, thread hand-offs, faults, torn-write lengths)",
            "environment_decisions": sum(r["ndec"] for r in recs),
            "events": sum(r["events"] for r in recs),
            "real_components": meta["real"], "stub_components": meta["stub"],
            "determinism_reruns": ndet, "determinism_mismatches": len(mism),
            "skipped_over_budget": len(skipped),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    def write_ev():
        ev["wall_s"] = round(time.time() - t0, 1)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    for key, what in known:
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {key} {what}")
    rc = 0
    crashed = None
    if bad and not new:
        crashed = confirm_crash(prop, tier, seed, tree, scratch, bad)
    if new and bad:
        for code, err, _ in bad:
            sys.stderr.write(f"worker ended with {code}\n{err}\n")
    if new:
        rc = report(prop, tier, seed, new, tree, scratch)
        ev["violations"] = len(new)
    elif crashed is not None:
        i, what = crashed
        path = save_replay({"property": prop, "kind": "crash", "seed": seed, "tier": tier, "indices": [i],
                            "violation": {"cls": "process-crash", "detail": what}}, prop, seed)
        print(f"run {i} ends the interpreter itself: {what}")
        print(f"VIOLATION property={prop} replay={path}")
        rc, ev["violations"] = 1, 1
    elif bad:
        for code, err, _ in bad:
            sys.stderr.write(f"worker ended with {code}\n{err}\n")
        rc = 2
    elif mism and meta.get("mismatch_is_violation"):
        path = save_replay({"property": prop, "kind": "cross-process", "seed": seed, "tier": tier, "indices": mism[:8],
                            "violation": {"cls": "process-dependent-result", "detail":
                                          "the same run gives different results in two interpreters"}}, prop, seed)
        print(f"the same simulated run gave different results in another interpreter: runs {mism[:8]}")
        print(f"VIOLATION property={prop} replay={path}")
        rc, ev["violations"] = 1, len(mism)
    elif mism:
        print(f"note: runs {mism[:8]} did not repeat identically in another interpreter")
    if len(recs) < meta.get("min_runs", {}).get(tier, 1) and rc == 0:
        sys.stderr.write(f"only {len(recs)} runs finished within the budget\n")
        rc = 2
    write_ev()
    print(f"{prop}: {len(recs)} runs, {ev['coverage']['distinct_interleavings']} interleavings, "
          f"faults {ev['coverage']['faults_fired']}, det {ndet}/{len(mism)} mism, {ev['wall_s']}s, exit {rc}")
    return rc


CRASH = (-11, -6, -7, -8, -4)         # SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL


def confirm_crash(prop, tier, seed, tree, scratch, bad):
    """A run during which the interpreter died of a memory or arithmetic fault, if it does so again."""
    for rc, err, last in bad:
        if rc in CRASH and last is not None:
            _, again = run_batch(prop, tier, seed, tree, scratch, "c", "0", indices=[last], budget=200)
            if again and again[0][0] in CRASH:
                return last, f"signal {-rc}: {err[-800:]}"
    return None


def save_replay(rep, prop, seed):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{rep.get('seed', seed)}.json")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path


def report(prop, tier, seed, new, tree, scratch):
    r = new[0]
    rep = {"property": prop, "kind": "run", "tier": tier, "verif_seed": seed, "index": r["i"], "seed": r["seed"],
           "scenario": r["scenario"], "decisions": r["decisions"], "violation": r["violation"]}
    path = save_replay(rep, prop, seed)
    try:
        if r["violation"]["cls"] == "no-progress":
            raise ValueError("runs that do not end are not minimised")
        small, _ = run_one("shrink", path, tree, scratch, timeout=240)
        if small is not None:
            cand = dict(rep, scenario=small["scenario"], decisions=small["decisions"], minimised=True,
                        original={"scenario": r["scenario"], "decisions": r["decisions"]}, shrink_tries=small["tries"])
            tmp = os.path.join(scratch, "cand.json")
            json.dump(cand, open(tmp, "w"))
            a, _ = run_one("replay", tmp, tree, scratch)
            b, _ = run_one("replay", tmp, tree, scratch, hashseed="77")
            if a and b and a["violation"] and b["violation"] and \
                    a["violation"]["cls"] == b["violation"]["cls"] == rep["violation"]["cls"]:
                cand["violation"] = a["violation"]
                cand["trace"] = a["trace"]
                cand["replay_log_digest"] = a["log"]
                cand["replayed_identically"] = (a["log"] == b["log"])
                path = save_replay(cand, prop, seed)
                rep = cand
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        print(f"minimisation stopped: {e!r}")
    print(f"{len(new)} violating run(s); classes: {sorted({x['violation']['cls'] for x in new})}")
    print(f"first: run {r['i']} seed {r['seed']}: {rep['violation']['cls']}: {rep['violation']['detail'][:1500]}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def replay(path):
    rep = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        tree = _build.build(scratch)
        if rep.get("kind") == "crash":
            p, t, s = rep["property"], rep["tier"], rep["seed"]
            _, again = run_batch(p, t, s, tree, scratch, "a", "0", rep["indices"])
            hit = bool(again) and again[0][0] in CRASH
            if hit:
                print(f"VIOLATION property={p} replay={path}")
            return 1 if hit else 0
        if rep.get("kind") == "cross-process":
            p, t, s = rep["property"], rep["tier"], rep["seed"]
            a, _ = run_batch(p, t, s, tree, scratch, "a", "0", rep["indices"])
            b, _ = run_batch(p, t, s, tree, scratch, "b", "4242", rep["indices"])
            same = [(x["log"], x["result"]) for x in a] == [(x["log"], x["result"]) for x in b]
            if not same:
                print(f"VIOLATION property={p} replay={path}")
            return 0 if same else 1
        out, err = run_one("replay", path, tree, scratch)
        if out is None:
            sys.stderr.write(err)
            return 2
        for e in out["trace"][-40:]:
            print("  ", *e)
        if out["violation"]:
            print(f"{out['violation']['cls']}: {out['violation']['detail']}")
            print(f"VIOLATION property={rep['property']} replay={path}")
            return 1
        print("the recorded run does not violate the property on this tree")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == "setup":
        scratch = tempfile.mkdtemp(prefix="dst-setup-")
        try:
            _build.build(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("setup ok")
        return 0
    if cmd == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    return check(prop, tier)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
