#!/usr/bin/env python3
"""Entry point of the simulation checks.

  run.py check ID        decides property ID (seed VERIF_SEED, tier VERIF_TIER)
  run.py replay FILE     re-executes a replay file against /repo's working tree
  run.py setup           verifies the tool chain
  run.py determinism     runs many seeds twice at two worker counts and compares the logs
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
sys.path.insert(0, VERIF)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def tree_key(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode())
            h.update(open(root, "rb").read())
            continue
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("build", "_build", ".git", "target", "coverage"))
            for f in sorted(files):
                if f.endswith((".h", ".cc", ".hpp", ".cpp", ".c", ".go", ".mod", ".sum", ".inc", ".rs", ".toml", ".s", ".S", ".json", ".py", ".txt")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def cached(target, key):
    try:
        return os.path.exists(target) and open(target + ".key").read() == key
    except OSError:
        return False


def set_key(target, key):
    with open(target + ".key", "w") as f:
        f.write(key)


from harnesses import CHECKS, HARNESSES, build_harness  # noqa: E402


def batch(binary, h, variant, seed, runs, secs, replays):
    out = os.path.join(BUILD, "out-%s-%s.json" % (h, variant or "default"))
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, "batch", "--seed", str(seed), "--runs", str(runs), "--workers", str(WORKERS), "--time", str(secs * float(os.environ.get("SIM_SCALE", "1"))), "--variant", variant, "--out", out, "--replay", replays]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if not os.path.exists(out) or r.returncode not in (0, 1):
        raise BuildError("simulator error (exit %d) in %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    d = json.load(open(out))
    d["rc"] = r.returncode
    d["output"] = r.stdout
    return d


def known_findings():
    """The listed findings: "finding: property=ID key=KEY what fails"."""
    known = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                known.append(line[len("finding: "):])
    return known


def known_key(finding):
    return finding.split(" key=", 1)[1].split()[0]


# Simulations tell listed findings from others: they count the former (as known:KEY) and go on.
os.environ["SIM_KNOWN"] = ",".join(known_key(k) for k in known_findings())


def check(pid):
    t0 = time.time()
    c = CHECKS[pid]
    replays = os.path.join(BUILD, "replays", pid)
    os.makedirs(replays, exist_ok=True)
    batches = c[TIER]
    names = []
    for b in batches:
        if b[0] not in names:
            names.append(b[0])
    bins = {}
    with cf.ThreadPoolExecutor(4) as ex:
        for n, f in [(n, ex.submit(build_harness, n)) for n in names]:
            bins[n] = f.result()
    build_s = time.time() - t0
    total = dict(runs=0, nontrivial=0, distinct=0, distinct_nontrivial=0, steps=0, switches=0)
    counters, samples, per, violation, sim_s, clock = {}, [], [], None, 0.0, 0
    digest = []
    for n, (h, variant, runs, secs) in enumerate(batches):
        # variants that differ in their checks only shall not repeat the runs of each other
        d = batch(bins[h], h, variant, SEED + 1000003 * n, runs, secs, replays)
        for k in total:
            total[k] += d.get(k, 0)
        for k, v in d["counters"].items():
            e = counters.setdefault(k, {"times": 0, "runs": 0})
            e["times"] += v["n"]
            e["runs"] += v["runs"]
        samples += ["[%s/%s] %s" % (h, variant or "default", s) for s in d["samples"]]
        sim_s += d["wall_s"]
        clock += d.get("sim_ticks", 0)
        per.append({"harness": h, "variant": variant or "default", "base_seed": SEED + 1000003 * n, "runs": d["runs"], "wall_s": round(d["wall_s"], 2), "log_digest": d.get("digest", "")})
        if d["violation"]:
            violation = d["violation"]
            violation["harness"], violation["variant"] = h, variant
            break
        if d["rc"] != 0:
            raise BuildError("simulator reported an error\n" + d["output"])
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": c.get("level", "exploration"), "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": total["distinct_nontrivial"],
            "rule": c["rule"],
            "samples": samples[:8] or ["no sample recorded"],
            "simulated_runs_per_hour": int(total["runs"] / max(sim_s, 1e-3) * 3600),
            "seeds_per_hour": int(total["runs"] / max(sim_s, 1e-3) * 3600),
            "simulated_time": {"scheduling_points": total["steps"], "simulated_clock_ticks": clock},
            "thread_switches": total["switches"],
            "distinct_interleavings": {"count": total["distinct"], "measure": "distinct 64-bit digests of the event log, which covers the order of all switches with their positions, the injected faults and the results of all operations"},
            "faults_injected": {k[6:]: v for k, v in counters.items() if k.startswith("fault:")},
            "probes": {k: v for k, v in counters.items() if not k.startswith("fault:")},
            "batches": per,
            "build_s": round(build_s, 2),
            "real_components": c["real"],
            "stub_components": c["stub"],
        },
        "assumptions": c["assumes"],
    }
    if violation:
        ev["coverage"]["violation"] = violation
    evdir = os.path.join(BUILD if "SIM_NOEV" in os.environ else VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in per:
        print("%s/%s: %d runs in %.1f s" % (p["harness"], p["variant"], p["runs"], p["wall_s"]))
    for k in known_findings():
        if k.startswith("property=%s " % pid) and "known:" + known_key(k) in counters:
            print("KNOWN-FINDING: " + k)
    print("faults injected: " + json.dumps(ev["coverage"]["faults_injected"]))
    if violation:
        print("violation class %s, seed %d: %s" % (violation["class"], violation["seed"], violation["message"]))
        print("minimised from %d to %d operations and switches; replay with: python3 run.py replay %s" % (violation.get("trace_before", 0), violation.get("trace_after", 0), violation["replay"]))
        print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
        return 1
    print("%s held in %d simulated runs (%d distinct, non-trivial), %.1f s" % (pid, total["runs"], total["distinct_nontrivial"], wall))
    return 0


def replay(path):
    h = open(path).readline().split()[1]
    b = build_harness(h)
    return subprocess.call([b, "replay", path] + (["-v"] if "-v" in sys.argv else []))


def determinism():
    """Every batch of every check, at 1/4 and full worker count: the digests must agree."""
    bad = 0
    seen = set()
    only = sys.argv[2:]
    for pid, c in CHECKS.items():
        for (h, variant, runs, secs) in c["quick"]:
            if (h, variant) in seen or (only and h not in only):
                continue
            seen.add((h, variant))
            b = build_harness(h)
            global WORKERS
            ds = []
            for w in (2, 8, 16):
                WORKERS = w
                ds.append(batch(b, h, variant, SEED + 77, min(runs, int(os.environ.get("SIM_RUNS", "3000"))), 300, BUILD))
            ok = len({(d["digest"], d["runs"]) for d in ds}) == 1
            print(h, variant or "default", ds[0]["runs"], "runs", [d["digest"] for d in ds], "ok" if ok else "DIFFER")
            bad += not ok
    return 1 if bad else 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    try:
        cmd = sys.argv[1] if len(sys.argv) > 1 else ""
        if cmd == "check":
            return check(sys.argv[2])
        if cmd == "replay":
            return replay(sys.argv[2])
        if cmd == "setup":
            for n in HARNESSES:
                if len(sys.argv) < 3 or n in sys.argv[2:]:
                    build_harness(n)
                    print("built", n)
            return 0
        if cmd == "determinism":
            return determinism()
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
