#!/usr/bin/env python3
"""run.py <property> [quick|thorough]      decide one property by seeded simulation of /repo's current tree
run.py replay <file> [--watch ADDR]        re-execute a replay file (rebuilds from /repo)

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CO_ECS_REPO", "/repo")
FAMILY = {}
# property: (family, quick runs, thorough runs)
PLAN = {
    "C01": ("tasks", 45000, 1500000),
    "C02": ("tasks", 60000, 1500000),
    "C03": ("tasks", 60000, 1500000),
    "C04": ("deque", 100000, 3000000),
    "C09": ("commands", 30000, 1000000),
    "C10": ("commands", 30000, 1000000),
    "C16": ("commands", 30000, 1000000),
    "C07": ("schedule", 30000, 800000),
    "C08": ("schedule", 30000, 800000),
    "C05": ("parallel", 15000, 600000),
    "C06": ("parallel", 30000, 600000),
    "C11": ("registry", 50000, 1500000),
    "C12": ("registry", 30000, 800000),
    "C13": ("registry", 40000, 1200000),
    "C14": ("registry", 30000, 1000000),
    "C15": ("registry", 60000, 1500000),
    "C17": ("containers", 25000, 1500000),
    "C19": ("submit", 30000, 1000000),
    "C20": ("concurrent", 30000, 1000000),
    "C21": ("concurrent", 20000, 400000),
    "C22": ("scratch", 40000, 2000000),
}
exec(open(os.path.join(HERE, "plan.py")).read()) if os.path.exists(os.path.join(HERE, "plan.py")) else None


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


# the two configurations the repository is tested in: std::ranges with assertions, range-v3 without (a quarter as many
# runs in addition, numbered from V3_BASE)
CONFIGS = {"std": "", "range-v3": "-DNDEBUG -DCO_ECS_USE_RANGE_V3"}
V3_BASE = 1000000000


def tree_hash(fam):
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "sim"), os.path.join(HERE, "harness")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(HERE, "build.sh"))
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def build(fam, configs=("std",)):
    """builds the simulator binaries of a family, returns {configuration: binary}"""
    res, jobs = {}, []
    bdir = os.path.join(HERE, "build")
    th = tree_hash(fam)
    for c in configs:
        out = os.path.join(bdir, "%s-%s-%s" % (fam, c, th))
        res[c] = os.path.join(out, "drv")
        if os.path.exists(os.path.join(out, "ok")):
            continue
        if os.path.isdir(bdir):  # old trees of this family
            for d in os.listdir(bdir):
                if d.startswith("%s-%s-" % (fam, c)):
                    subprocess.run(["rm", "-rf", os.path.join(bdir, d)])
        jobs.append((c, out, subprocess.Popen([os.path.join(HERE, "build.sh"), fam, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                              text=True, env=dict(os.environ, DSIM_FLAGS=CONFIGS[c]))))
    for c, out, p in jobs:
        txt, _ = p.communicate()
        if p.returncode:
            print(txt[-4000:])
            die("the harness does not build against %s (configuration %s)" % (REPO, c))
        open(os.path.join(out, "ok"), "w").write("ok")
    return res


def symbolize(drv, addrs):
    if not addrs:
        return []
    try:
        r = subprocess.run(["addr2line", "-Cfpe", drv] + ["0x%x" % (a - 1) for a in addrs], stdout=subprocess.PIPE, text=True, timeout=60)
    except Exception:
        return []
    out = []
    for l in r.stdout.splitlines():
        l = re.sub(r"\(discriminator \d+\)", "", l)
        out.append(l[:300])
    return out


def replay(drv, path, watch=None):
    cmd = [drv, "replay", "--file", path]
    if watch:
        cmd += ["--watch", watch]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    txt = r.stdout.decode(errors="replace")
    bt = [int(x, 16) for x in re.findall(r"^bt (0x[0-9a-f]+)$", txt, re.M)]
    return r.returncode, txt, symbolize(drv, bt)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        path = os.path.abspath(sys.argv[2])
        prop = re.search(r"^property (\S+)", open(path).read(), re.M).group(1)
        m = re.search(r"^# configuration (\S+)", open(path).read(), re.M)
        conf = m.group(1) if m else "std"
        drv = build(PLAN[prop][0], (conf,))[conf]
        rc, txt, bt = replay(drv, path, sys.argv[4] if len(sys.argv) > 4 else None)
        print(re.sub(r"^bt .*\n", "", txt, flags=re.M), end="")
        for l in bt:
            print("    at " + l)
        sys.exit(rc)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fam, nq, nt = PLAN[prop]
    total = int(os.environ.get("DSIM_RUNS", nq if tier == "quick" else nt))
    t0 = time.time()
    drvs = build(fam, tuple(CONFIGS))
    tbuild = time.time() - t0
    cpus = sorted(os.sched_getaffinity(0))
    tmp = os.path.join(HERE, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    wall = int(os.environ.get("DSIM_WALL", "420" if tier == "quick" else "700"))
    nw = len(cpus)
    errs, rcs, conf_runs = [], [], {}
    for c, n, base, w in (("std", total, 0, wall), ("range-v3", total // 4, V3_BASE, wall // 3)):
        procs = []
        for i, cpu in enumerate(cpus):
            cnt = (n - i + nw - 1) // nw
            procs.append(subprocess.Popen([drvs[c], "run", "--prop", prop, "--seed", str(seed), "--first", str(base + i), "--step", str(nw), "--count", str(cnt),
                                           "--det", "60", "--cpu", str(cpu), "--wall", str(w), "--out", "%s/%s%d.json" % (tmp, c, i),
                                           "--hashes", "%s/%s%d.h" % (tmp, c, i)],
                                          stderr=subprocess.PIPE, text=True))
        for p in procs:
            _, e = p.communicate()
            errs.append(e)
            rcs.append(p.returncode)
        conf_runs[c] = n
        if any(rcs):
            break
    if any(rc not in (0, 1) for rc in rcs):
        for e in errs:
            if e.strip():
                print(e.strip())
        subprocess.run(["rm", "-rf", tmp])
        die("a simulator worker failed: %s" % rcs)
    files = ["%s/%s%d" % (tmp, c, i) for c in conf_runs for i in range(nw)]
    res = [json.load(open(f + ".json")) for f in files]
    sets = {"d": set(), "i": set(), "s": set()}
    for f in files:
        for l in open(f + ".h"):
            sets[l[0]].add(l[2:-1])
    subprocess.run(["rm", "-rf", tmp])
    S = lambda k: sum(r[k] for r in res)
    simwall = sum(max(r["wall"] for r in res[k * nw:(k + 1) * nw]) for k in range(len(conf_runs)))
    fired = {k: {"injected": sum(r["fired"][k][0] for r in res), "runs_with": sum(r["fired"][k][1] for r in res)} for k in res[0]["fired"]}
    probes = {}
    scen = {}
    for r in res:
        for k, v in r["probes"].items():
            if k:
                probes[k] = probes.get(k, 0) + v
        for k, v in r["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
    vios = sorted((r["violation"] for r in res if "violation" in r), key=lambda v: v["run"])
    desc = {}
    for l in subprocess.run([drvs["std"], "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        p, s, d = l.split("\t")
        if p == prop:
            desc[s] = d
    cov = {
        "evaluations": S("runs"),
        "distinct_nontrivial": len(sets["d"]),
        "rule": "one evaluation = one simulated run (seed -> workload, schedule, stale loads, faults) of the real code in its own process; "
                "non-trivial = at least one thread switch or injected fault, or a workload of 3 or more steps; distinct = by hash of workload, "
                "interleaving (order of threads at every atomic/sync operation) and state reached",
        "samples": [x for r in res for x in r["samples"]][:4],
        "distinct_interleavings": len(sets["i"]),
        "distinct_states_reached": len(sets["s"]),
        "simulated_seconds": S("sim_ns") / 1e9,
        "runs_per_hour": int(S("runs") / max(simwall, 0.001) * 3600),
        "seeds_per_hour": int(S("runs") / max(simwall, 0.001) * 3600),
        "scheduling_points": S("steps"),
        "max_scheduling_points_in_a_run": max(r["max_steps"] for r in res),
        "thread_switches": S("switches"),
        "atomic_operations": S("atomics"),
        "instrumented_memory_accesses": S("accesses"),
        "simulated_threads": S("threads"),
        "faults": fired,
        "rare_conditions_hit_in_runs": probes,
        "scenarios": {k: {"runs": v, "what": desc.get(k, "")} for k, v in scen.items()},
        "configurations": {c: {"runs": sum(r["runs"] for r in res[k * nw:(k + 1) * nw]), "flags": CONFIGS[c]} for k, c in enumerate(conf_runs)},
        "runs_repeated_for_determinism": S("determinism_checked"),
        "inconclusive_runs": S("inconclusive"),
        "stopped_by_wall_clock": bool(sum(r["stopped_by_wall"] for r in res)),
        "real_code": "everything under /repo/include/co_ecs that the scenarios use, and libstdc++'s headers (semaphore, thread, containers)",
        "stubbed": "kernel scheduling, futex, clocks, random device, pthread mutex/cond/rwlock/once, thread creation and exit, operator new/delete",
        "build_s": round(tbuild, 1),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["the simulator runtime (/verif/sim) implements the C++20 memory model no weaker than the standard",
                        "the compiler's thread-sanitizer instrumentation reports every atomic and shared memory access of the headers",
                        "schedules and faults are sampled, not enumerated"],
        "wall_s": round(time.time() - t0, 2), "violations": len(vios),
    }

    def write_ev():
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    print("%s %s seed=%d: %d runs, %d distinct, %.0f runs/s, build %.0fs, %s" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], cov["evaluations"] / max(simwall, 1e-3), tbuild,
        ", ".join("%s %d" % (k, v["injected"]) for k, v in fired.items() if v["injected"])), flush=True)
    if not vios:
        write_ev()
        sys.exit(0)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    problem = ""
    for v, asis in [(vios[0], 0), (vios[0], 1)] + [(v, 1) for v in vios[1:4]]:
        conf = "range-v3" if v["run"] >= V3_BASE else "std"
        drv = drvs[conf]
        print("run %d (%s): %s: %s" % (v["run"], v["scenario"], v["class"], v["msg"]), flush=True)
        path = os.path.join(HERE, "replays", "%s-seed%d-run%d.replay" % (prop, seed, v["run"]))
        m = subprocess.run([drv, "minimize", "--prop", prop, "--seed", str(seed), "--run", str(v["run"]), "--out", path, "--cpu", str(cpus[0]), "--asis", str(asis)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if m.returncode:
            problem = m.stderr + "the violation of run %d could not be minimised" % v["run"]
            continue
        print(("not minimised: " if asis else "minimised: ") + m.stdout.strip())
        rc, txt, bt = replay(drv, path)
        if rc == 1:
            break
        problem = txt[-2000:] + "the replay file does not reproduce the violation in a fresh process"
    else:
        die(problem)
    with open(path, "a") as f:
        f.write("# configuration %s\n" % conf)
        f.write("# --- trace of the minimised run ---\n")
        for l in txt.splitlines():
            if not l.startswith("bt "):
                f.write("# " + l + "\n")
        for l in bt:
            f.write("#     at " + l + "\n")
    mm = re.search(r"msg=(.*)", txt)
    ev["coverage"]["violation"] = {"run": v["run"], "class": v["class"], "message": mm.group(1) if mm else v["msg"], "replay": path}
    write_ev()
    print("minimised run: " + (mm.group(1) if mm else ""))
    for l in bt[:12]:
        print("    at " + l)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    sys.exit(1)


main()
