#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

  check.py ID [--thorough]        explore; exit 0 held, 1 + VIOLATION line, 2 error of the check
  check.py ID --replay FILE       rebuild from /repo's working tree and replay a recorded violation
  check.py --prebuild             compile the simulator only (setup)

Everything is built from /repo's current working tree on every call.
"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from config import CHECKS, WRAP  # noqa: E402

os.environ["LD_BIND_NOW"] = "1"  # lazy binding would leave its traces on the simulated stacks
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(pid, bdir):
    os.makedirs(bdir, exist_ok=True)
    c = CHECKS[pid]
    simo = os.path.join(bdir, "sim.o")
    jobs = [(["g++", "-std=c++17", "-O2", "-g", "-w", "-c", os.path.join(V, "sim", "sim.cpp"), "-o", simo])]
    objs = []
    for src in c["sources"]:
        o = os.path.join(bdir, src + ".o")
        objs.append(o)
        jobs.append(["clang++", "-std=c++17", "-O1", "-g1", "-fno-pie", "-fno-builtin", "-fsized-deallocation", "-fstack-protector-strong", "-fsanitize=thread,bounds", "-fsanitize-trap=bounds",
                     "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-I" + os.path.join(REPO, "src"),
                     "-I/usr/include/eigen3", "-I" + os.path.join(V, "harness"),
                     "-c", os.path.join(V, "harness", src + ".cpp"), "-o", o])
    ps = [(j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for j in jobs]
    for j, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            die("build failed: %s\n%s" % (" ".join(j), out[-4000:]))
    exe = os.path.join(bdir, pid)
    link = ["g++", "-no-pie", "-Wl,-z,now"] + objs + [simo, "-o", exe] + ["-Wl,--wrap=" + w for w in WRAP] + ["-ldl", "-lpthread"]
    r = run(link)
    if r.returncode:
        die("link failed:\n" + r.stdout[-4000:])
    return exe


def merge_counts(dicts):
    out = {}
    for d in dicts:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def known(pid):
    """Findings recorded (not repaired): lines 'known: property=<id> class=<cls> match=<text> | <what fails>'."""
    res = []
    path = os.path.join(V, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                head, _, what = line[len("known: property=%s " % pid):].partition(" | ")
                kv = {}
                cls, _, m = head.partition(" match=")
                kv["class"] = cls.replace("class=", "").strip()
                kv["match"] = m.strip()
                kv["what"] = what.strip()
                res.append(kv)
    return res


def main():
    if "--prebuild" in sys.argv:
        bdir = os.path.join(V, "build", "setup")
        os.makedirs(bdir, exist_ok=True)
        r = run(["g++", "-std=c++17", "-O2", "-g", "-w", "-c", os.path.join(V, "sim", "sim.cpp"), "-o",
                 os.path.join(bdir, "sim.o")])
        print(r.stdout)
        sys.exit(1 if r.returncode else 0)
    pid = sys.argv[1]
    if pid not in CHECKS:
        die("unknown property " + pid)
    cfg = CHECKS[pid]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bdir = os.path.join(V, "build", "%s.%s.%d" % (pid, tier, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    t0 = time.time()
    try:
        exe = build(pid, bdir)
        t_build = time.time() - t0
        if "--replay" in sys.argv:
            f = sys.argv[sys.argv.index("--replay") + 1]
            r = run([exe, "replay", f])
            print(r.stdout)
            sys.exit(r.returncode)
        code = explore(pid, cfg, tier, seed, bdir, exe, t_build, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(code)


def explore(pid, cfg, tier, seed, bdir, exe, t_build, t0):
    count = cfg["runs"] if tier == "quick" else cfg["runs"] * cfg.get("thorough_factor", 40)
    if os.environ.get("VERIF_RUNS"):
        count = int(os.environ["VERIF_RUNS"])
    cap = 150 if tier == "quick" else 3600
    t1 = time.time()
    procs = []
    for w in range(WORKERS):
        st = os.path.join(bdir, "stats.%d.json" % w)
        rp = os.path.join(bdir, "replay.%d.txt" % w)
        cmd = [exe, "explore", "--base", str(seed), "--start", str(w), "--stride", str(WORKERS),
               "--count", str(count), "--time", str(cap), "--stats", st, "--replay-out", rp]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), st, rp))
    stats, fails, errors = [], [], []
    for p, st, rp in procs:
        try:
            out, err = p.communicate(timeout=cap + 400)
        except subprocess.TimeoutExpired:
            p.kill()
            errors.append("worker timed out")
            continue
        try:
            s = json.load(open(st))
            stats.append(s)
        except Exception as e:
            errors.append("worker left no statistics (rc %s): %s" % (p.returncode, err[-500:]))
            continue
        if p.returncode == 1:
            fails.append((s, rp))
        elif p.returncode:
            errors.append("%s: %s" % (s.get("class"), s.get("message")))
    wall = time.time() - t1
    if not stats:
        die("no worker reported: " + "; ".join(errors))
    # fresh-process replay gate
    kf = known(pid)
    confirmed, known_hit = [], []
    for s, rp in fails:
        r = run([exe, "replay", rp])
        if r.returncode != 1:
            errors.append("violation %s did not replay in a fresh process: %s" % (s["class"], r.stdout[-600:]))
            continue
        hit = [k for k in kf if k["class"] == s["class"] and k["match"] in s["message"]]
        if hit:
            known_hit.append(hit[0])
        else:
            confirmed.append((s, rp, r.stdout))
    tot = lambda k: sum(s[k] for s in stats)  # noqa: E731
    runs = tot("runs")
    samples = []
    for s in stats:
        samples += s["samples"]
    steps = tot("steps")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": tot("nontrivial"),
            "rule": "one evaluation is one simulated execution of the scenario in a forked process, wholly determined by "
                    "mix(VERIF_SEED, run index); " + cfg["rule"] + " Non-trivial: its oracle was evaluated and the run "
                    "switched threads or had an injected fault fire, or (single-threaded scenarios) ran its operation "
                    "history; distinct: its complete event-trace hash was not seen before by the same worker.",
            "samples": samples[:4],
            "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "seeds_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "simulated_time": {"unit": "scheduler steps (instrumented memory accesses, atomics, locks, allocations, "
                                       "callbacks); the library has no timers, so simulated time is counted in steps",
                               "steps": steps, "context_switches": tot("switches"),
                               "steps_of_the_longest_run": max(s.get("longest", 0) for s in stats)},
            "faults_fired": merge_counts(s["fired"] for s in stats),
            "runs_with_a_fired_fault": tot("fault_runs"),
            "multi_threaded_runs": tot("mt_runs"),
            "distinct_interleavings": tot("distinct_interleavings"),
            "interleaving_measure": "hash of the sequence of (step, thread switched to) of a run, combined with the "
                                    "workload hash; counted per worker",
            "distinct_workloads_per_worker": [s["distinct_workloads"] for s in stats],
            "schedulers": merge_counts(s["strategies"] for s in stats),
            "oracle_evaluations": tot("oracles"),
            "allocations_seen": tot("allocs"),
            "rare_condition_probes": merge_counts(s["probes"] for s in stats),
            "determinism_audits": {"runs_repeated": tot("audits"), "diverged": tot("audit_bad")},
            "trace_digest": [s["digest"] for s in stats],
            "real_code": cfg["real"],
            "stubbed": "thread scheduler, locks/once/static-init guards, heap, exit/abort, rand, clocks, entropy and (where "
                       "printed to) streams are the simulator's; " + cfg.get("stub", ""),
            "workers": WORKERS, "build_s": round(t_build, 1), "explore_s": round(wall, 1),
        },
        "assumptions": cfg["assumptions"],
        "violations": len(confirmed),
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if confirmed:
        s, rp, text = confirmed[0]
        rdir = os.path.join(V, "replays")
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, "%s-%d.txt" % (pid, seed))
        shutil.copy(rp, dst)
        print("%s: %s" % (s["class"], s["message"]))
        print("\n".join(text.splitlines()[:40]))
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    if errors:
        die("; ".join(errors))
    if tot("nontrivial") == 0:
        die("nothing was explored")
    want = cfg.get("must_probe", [])
    missed = [p for p in want if not ev["coverage"]["rare_condition_probes"].get(p)]
    if want and len(missed) == len(want):
        die("none of the conditions %s was reached: the exploration is vacuous" % want)
    for pr in missed:
        print("note: condition %r was never reached (see the evidence)" % pr)
    print("%s held: %d runs (%d distinct non-trivial), %d steps, faults %s, %.0f s" % (
        pid, runs, tot("nontrivial"), steps, ev["coverage"]["faults_fired"], time.time() - t0))
    return 0


main()
