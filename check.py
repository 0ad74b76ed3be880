#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: rebuilds the simulator from /repo and searches seeded executions.

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed, replay file written.
Exit 2: no answer (the tree does not build, or the simulator could not run it).
"""
import glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props_table as T

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def known(prop):
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def header(path):
    h = {"msg": ""}
    with open(path) as f:
        for line in f:
            if line.startswith("# violation: "):
                h["msg"] += line[13:]
            elif line.startswith("# config: "):
                h["cfg"] = line[10:].strip()
            elif line[0] in "OFE":
                break
            else:
                k = line.split(" ", 1)
                if len(k) == 2:
                    h[k[0]] = k[1].strip()
    return h


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = T.PLAN[prop]
    variants = plan["quick"] if tier == "quick" else plan["thorough"]
    total = float(os.environ.get("VERIF_SECONDS", plan.get("secs", 36) if tier == "quick" else 560))
    r = subprocess.run([sys.executable, os.path.join(HERE, "build.py")] + [v for v, _ in variants],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sys.stdout.write(r.stdout[-3000:])
    if r.returncode != 0:
        print("NO ANSWER: the simulator does not build from /repo")
        return 2
    t_build = time.time() - t0
    build = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
    work = os.path.join(build, "work.%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    kn = known(prop)
    for _, _, what in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    def is_known(h):
        return any(c == h.get("class") and rx.search(h.get("signature", "") + " " + h["msg"]) for c, rx, _ in kn)

    fresh, agg, lists = {}, {}, {"samples": [], "internal": []}
    faults, probes, per_variant = {}, {}, {}
    t_explore = time.time()
    for v, share in variants:
        sim = os.path.join(build, v, "sim")
        secs = total * share
        env = dict(os.environ)
        procs = []
        for w in range(WORKERS):
            out = os.path.join(work, "%s.%d" % (v, w))
            procs.append(subprocess.Popen(
                [sim, "explore", "--prop", prop, "--seed-base", str(seed), "--workers", str(WORKERS), "--worker", str(w),
                 "--seconds", "%g" % secs, "--out", out] ,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        seen, stop_at = set(), None
        while any(p.poll() is None for p in procs):
            time.sleep(0.25)
            for f in glob.glob(os.path.join(work, v + ".*.trace")):
                if f in seen:
                    continue
                try:
                    txt = open(f).read()
                except OSError:
                    continue
                if "# end" not in txt[-40:]:
                    continue
                seen.add(f)
                h = header(f)
                if is_known(h):
                    continue
                key = (h.get("class"), h.get("signature"))
                size = os.path.getsize(f)
                if key not in fresh or fresh[key][2] > size:
                    fresh[key] = (v, f, size)
                if stop_at is None:
                    stop_at = time.time() + 4
            if stop_at and time.time() > stop_at:
                for p in procs:
                    p.terminate()
                stop_at = time.time() + 1e9
        runs = 0
        for w in range(WORKERS):
            try:
                d = json.load(open(os.path.join(work, "%s.%d.json" % (v, w))))
            except (OSError, ValueError):
                lists["internal"].append("worker %d of %s left no summary" % (w, v))
                continue
            runs += d["runs"]
            for k, x in d.items():
                if isinstance(x, (int, float)):
                    agg[k] = agg.get(k, 0) + x
            for k, x in d["faults"].items():
                faults[k] = faults.get(k, 0) + x
            for k, x in d["probes"].items():
                probes[k] = probes.get(k, 0) + x
            if w < 2:
                lists["samples"] += ["[%s] %s" % (v, s) for s in d["samples"][:2]]
            if d["first_internal"]:
                lists["internal"].append("[%s] %s" % (v, d["first_internal"]))
        per_variant[v] = runs
        if fresh:
            break
    t_explore = time.time() - t_explore

    # ---------------------------------------------------------------- violations
    reports, unconfirmed = [], []
    rep_dir = os.path.join(HERE, "replays")
    for key, (v, f, _) in sorted(fresh.items(), key=lambda kv: kv[1][2])[:4]:
        sim = os.path.join(build, v, "sim")

        def replay(path):
            try:
                p = subprocess.run([sim, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                   timeout=90, errors="replace")
            except subprocess.TimeoutExpired:
                return None
            return dict(l.split(" ", 1) for l in p.stdout.split("\n")[:4] if " " in l)
        a, b = replay(f), replay(f)
        ok = a and b and a.get("outcome") == b.get("outcome") == "violation" and a.get("class") == b.get("class") == key[0]
        if ok and key[1] != "wall-clock" and not (a.get("hash") == b.get("hash")):
            ok = False
        if not ok:
            unconfirmed.append("%s %s (%s)" % (key[0], key[1], f))
            continue
        os.makedirs(rep_dir, exist_ok=True)
        dst = os.path.join(rep_dir, "%s-%s-%s.trace" % (prop, v, header(f).get("seed")))
        shutil.copy(f, dst)
        if key[1] != "wall-clock":
            mini = f + ".min"
            budget = 40 if tier == "quick" else 150
            try:
                m = subprocess.run([sim, "minimise", f, mini, "--seconds", str(budget)], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True, timeout=budget + 90)
                if m.returncode == 0 and os.path.exists(mini):
                    c, d = replay(mini), replay(mini)
                    if c and d and c.get("class") == d.get("class") == key[0] and c.get("hash") == d.get("hash"):
                        shutil.copy(mini, dst)
                        sys.stdout.write("  " + m.stdout)
            except subprocess.TimeoutExpired:
                pass
        with open(dst, "r+") as g:
            txt = g.read()
            g.seek(0)
            g.write("# replay with: %s/build/%s/sim replay THIS_FILE --verbose 1   (after build.py %s)\n" % (HERE, v, v) + txt)
        reports.append((key, v, dst, header(dst)))
    # ---------------------------------------------------------------- evidence
    runs = int(agg.get("runs", 0))
    wall = time.time() - t0
    ex = max(t_explore, 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": len(reports),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": int(agg.get("distinct_nontrivial", 0)),
            "rule": "one evaluation = one simulated execution of the allocator from one seed (workload, schedule, fault "
                    "sequence and configuration all drawn from it); non-trivial = it ended normally after " + plan["nontrivial"] +
                    "; distinct = by hash over every scheduling decision with its position, every simulated system call and fault",
            "samples": lists["samples"][:8] or ["none"],
            "runs_per_hour": int(runs / ex * 3600), "seeds_per_hour": int(runs / ex * 3600),
            "runs_per_variant": per_variant,
            "runs_ended_normally": int(agg.get("ok", 0)), "runs_discarded": int(agg.get("discard", 0)),
            "runs_with_simulator_error": int(agg.get("internal", 0)), "wall_clock_timeouts": int(agg.get("timeouts", 0)),
            "simulated_time_s": round(agg.get("sim_us", 0) / 1e6, 3),
            "simulated_steps": int(agg.get("steps", 0)),
            "faults_injected": faults,
            "scheduling": {k: int(agg.get(k, 0)) for k in ("switches", "preemptions", "migrations", "rseq_traps", "rseq_aborts",
                                                           "fences", "lock_waits")},
            "allocator_calls": int(agg.get("api_calls", 0)), "allocations": int(agg.get("allocs", 0)), "frees": int(agg.get("frees", 0)),
            "distinct_schedules": int(agg.get("distinct_schedules", 0)),
            "distinct_histories": int(agg.get("distinct_histories", 0)),
            "distinct_preemption_site_pairs_summed_over_workers": int(agg.get("site_pairs", 0)),
            "probes": probes,
            "real_code": plan.get("real", T.REAL), "stubbed": T.STUB,
            "build_s": round(t_build, 1), "explore_s": round(t_explore, 1),
            "simulator_errors": lists["internal"][:3], "unconfirmed": unconfirmed[:5],
        },
        "assumptions": T.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    print("%s %s: %d runs in %.0f s (build %.0f s), %d ok, %d simulator errors, faults %s" % (
        prop, tier, runs, ex, t_build, agg.get("ok", 0), agg.get("internal", 0), faults))
    for u in unconfirmed:
        print("note: not reproduced on replay, not reported: " + u)
    for i in lists["internal"][:2]:
        print("simulator error: " + i)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    if reports:
        for key, v, dst, h in reports:
            print("  %s / %s\n  %s" % (key[0], key[1], h["msg"].strip()[-700:]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    if runs == 0 or agg.get("internal", 0) > 0.2 * runs:
        print("NO ANSWER: the simulator could not run this tree")
        return 2
    return 0


sys.exit(main())
