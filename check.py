#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by seeded simulation of /repo's current tree.
exit 0: held in every run; 1: VIOLATION (replay file named); 2: the check itself failed."""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
import checks


def known(prop):
    """entries 'known: property=<id> class=<class> match=<regex> :: <text>' of known-findings.txt"""
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m[1] == prop:
                out.append((m[2], m[3], m[4]))
    except OSError:
        pass
    return out


def annotate(exe, msg):
    """resolve the program counters of a stack line"""
    m = re.search(r"stack: ((?:0x[0-9a-f]+ ?)+)", msg)
    if not m:
        return ""
    try:
        o = subprocess.run(["addr2line", "-f", "-s", "-e", exe] + m[1].split(), capture_output=True, text=True, timeout=30).stdout.split("\n")
        return "\n".join("    %s (%s)" % (o[i], o[i + 1]) for i in range(0, len(o) - 1, 2) if o[i + 1].split(":")[0].endswith(".c"))
    except Exception:
        return ""


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = checks.CHECKS[prop]
    t0 = time.time()
    try:
        exe, notes = build.build()
    except build.BuildError as x:
        print("the code under test could not be built for the simulator:\n%s" % x)
        return 2
    if notes:
        print("note: symbols used as they are:", " ".join(notes))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join(HERE, "replays", "%s-%d.replay" % (prop, seed))
    js = os.path.join(HERE, "build", "%s.%s.json" % (prop, tier))
    n = c.get(tier, checks.QUICK if tier == "quick" else checks.THOROUGH)
    secs = 240 if tier == "quick" else float(os.environ.get("VERIF_SECS", "780"))
    jobs = str(min(16, os.cpu_count() or 4))
    for f in (js, replay):
        if os.path.exists(f):
            os.unlink(f)
    try:
        r = subprocess.run([exe, "explore", "-parts", c["parts"], "-relevant", c["rel"], "-n", str(n), "-secs", str(secs), "-seed", str(seed),
                            "-jobs", jobs, "-replay", replay, "-json", js, "-minsecs", "25", "-limit", "60"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 300)
    except subprocess.TimeoutExpired:
        print("the exploration did not end")
        return 2
    print(r.stdout.strip())
    if r.returncode not in (0, 1):
        print("the simulator failed (%d)" % r.returncode)
        return 2
    j = json.load(open(js))
    vio = j.get("violation")
    rc = 0
    if r.returncode == 1:
        # the replay file must reproduce the violation, exactly, in fresh processes
        outs = []
        for _ in range(2):
            q = subprocess.run([exe, "replay", "-file", replay], capture_output=True, text=True, errors="replace", timeout=200)
            h = re.search(r"^hash (\S+)", q.stdout, re.M)
            k = re.search(r"^class (\S+)", q.stdout, re.M)
            outs.append((q.returncode, h and h[1], k and k[1]))
        if outs[0] != outs[1] or outs[0][0] != 1 or outs[0][2] != vio["class"]:
            print("the replay does not reproduce the violation: %s / %s" % (outs, vio))
            return 2
        print("%s: %s" % (vio["class"], vio["message"]))
        print(annotate(exe, vio["message"]))
        rc = 1
    # recorded findings: listed histories which fail on this tree
    kf = []
    for cls, rx, text in known(prop):
        for f in sorted(os.listdir(os.path.join(HERE, "findings"))) if os.path.isdir(os.path.join(HERE, "findings")) else []:
            if not f.startswith(cls.replace(":", "-")):
                continue
            q = subprocess.run([exe, "replay", "-file", os.path.join(HERE, "findings", f)], capture_output=True, text=True, errors="replace", timeout=200)
            k = re.search(r"^class (\S+)", q.stdout, re.M)
            if q.returncode == 1 and k and k[1] == cls:
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
                kf.append(text)
    wall = time.time() - t0
    worlds = sorted({p.split(":")[0] for p in c["parts"].split(",")})
    ex = max(j["explored_s"], 1e-3)
    cov = {
        "evaluations": j["runs"],
        "distinct_nontrivial": j["distinct"],
        "rule": "each evaluation is one simulated run whose workload, schedule and faults are drawn from the seed and the run's index "
                "(parts %s); non-trivial: %s; distinct: by the hash of the whole sequence of scheduling decisions and "
                "environment events" % (c["parts"], c.get("nontrivial", "at least one client was served or refused by an oracle's decision")),
        "samples": j["samples"] or ["(no sample)"],
        "nontrivial_runs": j["nontrivial"],
        "runs_per_hour": int(j["runs"] / ex * 3600),
        "seeds_per_hour": int(j["runs"] / ex * 3600),
        "simulated_hours": round(j["sim_s"] / 3600.0, 2),
        "scheduling_steps": j["steps"], "context_switches": j["switches"], "memory_accesses_checked": j["mem_accesses"],
        "threads_created": j["threads"], "allocations": j["allocs"], "sockets": j["sockets"], "environment_operations": j["ops"],
        "faults_injected": j["faults"],
        "oracle_decisions": {checks.PROBES[i]: v for i, v in enumerate(j["probes"]) if v and i in checks.PROBES},
        "violations_of_other_properties_seen": j["other_ignored"],
        "determinism": "every 64th run (and every violating one) was executed twice and its event hash compared",
        "components": {w: checks.COMPONENTS[w] for w in worlds},
    }
    if vio:
        cov["violation"] = vio
    if kf:
        cov["known_findings"] = kf
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the simulator's models of POSIX threads, TCP/UDP sockets, clocks, files and signals are faithful where the code depends on them",
                          "simulated network: IPv4, bounded buffers, Linux semantics of shutdown/close/accept"],
          "wall_s": round(wall, 2), "violations": 1 if rc else 0}
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    if rc:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        print("%s held in %d runs (%.0f s)" % (prop, j["runs"], wall))
    return rc


if __name__ == "__main__":
    sys.exit(main())
