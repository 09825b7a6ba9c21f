#!/usr/bin/env python3
"""Coordinates the worker processes of a Go simulation: the same command line
as the C++ simulators (batch, replay, one).

  coord.py BIN HARNESS batch --seed S --runs N --workers W --time T --variant V --out F --replay DIR
  coord.py BIN HARNESS replay FILE [-v]
  coord.py BIN HARNESS one SEED [VARIANT] [-v]
"""
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import tempfile
import time

MAXC, MAXD = 1 << 17, 1 << 17
ENV = dict(os.environ, GOMAXPROCS="1", GOGC="off", GODEBUG="asyncpreemptoff=1", GOTRACEBACK="all",
           GORACE="halt_on_error=1 atexit_sleep_ms=0 history_size=3 exitcode=66")
RUN_LIMIT = 240.0  # seconds of real time one run may take


def mix(z):
    m = (1 << 64) - 1
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & m
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & m
    return z ^ (z >> 31)


def seed_of(base, i):
    m = (1 << 64) - 1
    return mix((base * 0x9E3779B97F4A7C15 + i + 1) & m) >> 1


def clean(text):
    """Removes the framing of the fake-time runtime from its output."""
    return re.sub(rb"\x00\x00PB.{12}", b"", text, flags=re.S).decode(errors="replace")


def crash_class(rc, err):
    if "WARNING: DATA RACE" in err:
        acc = []
        for part in re.split(r"\n(?=(?:Read|Write|Previous read|Previous write|Atomic|Previous atomic)[^\n]* at )", "\n" + err):
            mm = re.match(r"((?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic \w+)) at \w+ by (?:goroutine \d+|main goroutine)", part)
            if mm:
                frames = re.findall(r"^  (\S+?)\([^\n]*\)\n      (\S+?):(\d+)", part, flags=re.M)
                f = [x for x in frames if "Tosca/go/" in x[0] and "/dst/" not in x[0]] or frames
                acc.append("%s in %s (%s:%s)" % (mm.group(1).lower(), re.sub(r".*Tosca/go/", "", f[0][0]), os.path.basename(f[0][1]), f[0][2]) if f else mm.group(1))
        return "data-race", "; ".join(acc[:2]) or "data race"
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: .*|SIG\w+.*)$", err, flags=re.M)
    msg = m.group(1) if m else "the process ended with status %d" % rc
    frames = [x for x in re.findall(r"^(\S*Tosca/go/[^\n(]*)\(", err, flags=re.M) if "/dst/" not in x]
    if frames:
        msg += " in " + re.sub(r".*Tosca/go/", "", frames[0])
    cls = "panic"
    if "concurrent map" in msg:
        cls = "data-race"
    elif "deadlock" in msg:
        cls = "no-progress"
    return cls, msg


def exhausted():
    """Whether a simulation grew far beyond what runs on the original code need."""
    return resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss > 6 << 20


# A panic of code of the repository before the first run: while packages are
# initialised, or when called by a harness that prepares its runs.
INIT = re.compile(r"^(?:panic|fatal error): .*\n(?:.*\n)*?github\.com/Fantom-foundation/Tosca/go/(?!dst/|harness/)[\w/]+\.", re.M)


class Runner:
    def __init__(self, binary, harness):
        self.bin, self.harness = binary, harness
        self.tmp = tempfile.mkdtemp(prefix="sim-", dir=os.environ.get("SIM_TMP"))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.tmp, n)

    def single(self, args, limit=RUN_LIMIT, tag="s", verbose=False):
        """Runs one simulation; returns (result or None, class, message, choices, decisions)."""
        out, sh = self.path(tag + ".json"), self.path(tag + ".sh")
        for f in (out, sh):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [self.bin] + args + [out, sh] + (["-v"] if verbose else [])
        with open(self.path(tag + ".err"), "w+b") as e:
            try:
                rc = subprocess.run(cmd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e, timeout=limit).returncode
            except subprocess.TimeoutExpired:
                rc = None
            e.seek(0)
            err = clean(e.read(1 << 20))
        if verbose:
            sys.stdout.write(err)
        choices, dec = self.recorded(sh)
        if rc is None:
            return None, "no-progress", "the run did not end within %d s" % limit, choices, dec
        if rc in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            v = d["violation"]
            return d, v and v["class"], v and v["message"], choices, dec
        if rc == -9 and exhausted():
            return None, "no-progress", "the run does not end and needs ever more memory", choices, dec
        if rc == -9 or rc == 9:
            raise SystemError("simulation process failed (%d): %s" % (rc, err[-2000:]))
        cls, msg = crash_class(rc, err)
        return None, cls, msg, choices, dec

    def recorded(self, sh):
        try:
            b = open(sh, "rb").read()
        except OSError:
            return [], []
        choices, dec = [], []
        for i in range(MAXC):
            (v,) = struct.unpack_from("<Q", b, 4096 + 8 * i)
            if v == 0:
                break
            choices.append(v - 1)
        for i in range(MAXD):
            at, v = struct.unpack_from("<QI", b, 4096 + 8 * MAXC + 16 * i)
            if at == 0:
                break
            dec.append((at, v))
        return choices, dec

    def write_replay(self, path, variant, seed, choices, dec, cls=None, msg=None):
        with open(path, "w") as f:
            f.write("harness %s\nvariant %s\nseed %d\n" % (self.harness, variant or "default", seed))
            f.write("choices " + " ".join(map(str, choices)) + "\n")
            f.write("sched " + " ".join("%d:%d" % x for x in dec) + "\n")
            if cls:
                f.write("# class %s\n# %s\n" % (cls, (msg or "").replace("\n", "\n# ")))

    def try_replay(self, variant, seed, choices, dec, limit=60):
        p = self.path("try.sim")
        self.write_replay(p, variant, seed, choices, dec)
        return self.single(["replay", p], limit=limit, tag="try")

    def minimise(self, variant, seed, cls, choices, dec, budget=25.0):
        """Removes decisions, then simplifies and removes choices, as long as the same class of violation remains."""
        t0 = time.time()
        best = (choices, dec)

        def holds(c, d):
            if time.time() - t0 > budget:
                return False
            return self.try_replay(variant, seed, c, d, limit=20)[1] == cls

        # strip trailing zero choices: absent ones count as zero
        c, d = list(choices), list(dec)
        while c and c[-1] == 0:
            c.pop()
        if holds(c, []):
            d = []
        for name in ("d", "c", "d"):
            size = max(1, (len(d) if name == "d" else len(c)) // 2)
            while size >= 1 and time.time() - t0 < budget:
                i, changed = 0, False
                while i < len(d if name == "d" else c):
                    if name == "d":
                        t = d[:i] + d[i + size:]
                        if len(t) != len(d) and holds(c, t):
                            d, changed = t, True
                            continue
                    else:
                        t = c[:i] + [0] * min(size, len(c) - i) + c[i + size:]
                        if t != c and holds(t, d):
                            c, changed = t, True
                    i += size
                    if time.time() - t0 > budget:
                        break
                size //= 2
        while c and c[-1] == 0:
            c.pop()
        if self.try_replay(variant, seed, c, d)[1] == cls:
            best = (c, d)
        return best


def batch(binary, harness, a):
    seed, runs, workers, secs = int(a["seed"]), int(a["runs"]), int(a["workers"]), float(a["time"])
    variant = a.get("variant", "")
    rn = Runner(binary, harness)
    t0 = time.time()
    total = dict(runs=0, nontrivial=0, steps=0, switches=0, sim_ticks=0)
    counters, samples, digest = {}, [], 0
    distinct = set()
    candidates = []  # (index, seed)
    unconfirmed = 0

    class W:
        pass

    ws = []

    def launch(w):
        w.gen += 1
        w.out, w.sh, w.errp = rn.path("w%d.%d.json" % (w.k, w.gen)), rn.path("w%d.sh" % w.k), rn.path("w%d.%d.err" % (w.k, w.gen))
        if os.path.exists(w.sh):
            os.unlink(w.sh)
        left = max(0, int((secs - (time.time() - t0)) * 1000))
        w.err = open(w.errp, "wb")
        w.p = subprocess.Popen([binary, "work", variant, str(seed), str(w.start), str(workers), str(runs), str(left), w.out, w.sh],
                               env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=w.err)
        w.last, w.since = None, time.time()

    for k in range(workers):
        w = W()
        w.k, w.start, w.gen, w.done = k, k, 0, k >= runs
        if not w.done:
            launch(w)
        ws.append(w)

    def absorb(w):
        nonlocal digest
        try:
            d = json.load(open(w.out))
        except (OSError, ValueError):
            return None
        for k in total:
            total[k] += d[k]
        digest = (digest + d["digest"]) & ((1 << 64) - 1)
        for k, c in d["counters"].items():
            e = counters.setdefault(k, {"n": 0, "runs": 0})
            e["n"] += c["n"]
            e["runs"] += c["runs"]
        for s in d["samples"] or []:
            if len(samples) < 6:
                samples.append(s)
        try:
            b = open(w.out + ".distinct", "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            os.unlink(w.out + ".distinct")
        except OSError:
            pass
        return d

    error = None
    while not all(w.done for w in ws) and not candidates and not error:
        time.sleep(0.01)
        for w in ws:
            if w.done:
                continue
            rc = w.p.poll()
            if rc is None:
                try:
                    with open(w.sh, "rb") as f:
                        cur = f.read(8)
                except OSError:
                    cur = None
                if cur != w.last:
                    w.last, w.since = cur, time.time()
                elif time.time() - w.since > RUN_LIMIT:
                    w.p.kill()
                    w.p.wait()
                    w.done = True
                    if cur:
                        candidates.append((struct.unpack("<Q", cur)[0] - 1, "no-progress"))
                continue
            w.err.close()
            if rc in (0, 1):
                d = absorb(w)
                if d is None:
                    error = "worker left no result"
                    break
                if d["violation"]:
                    candidates.append((d["violation"]["index"], d["violation"]["class"]))
                    w.done = True
                elif d["finished"] or time.time() - t0 > secs:
                    w.done = True
                else:
                    w.start = d["next"]
                    launch(w)
                continue
            with open(w.errp, "rb") as f:
                err = clean(f.read(1 << 20))
            try:
                cur = struct.unpack("<Q", open(w.sh, "rb").read(8))[0]
            except (OSError, struct.error):
                cur = 0
            if rc == -9 and cur and exhausted():
                candidates.append((cur - 1, "no-progress"))
                w.done = True
                continue
            if rc in (9, -9) or cur == 0:
                if rc == -9 and w.gen < 20 and cur:
                    w.start = cur - 1 + workers
                    if time.time() - t0 > secs:
                        w.done = True
                    else:
                        launch(w)
                    continue
                if cur == 0 and rc not in (9, -9) and INIT.search(err):
                    candidates.append((w.start, "panic"))  # the code under test fails while it is loaded
                    w.done = True
                    continue
                error = "worker failed (%d)\n%s" % (rc, err[-3000:])
                break
            candidates.append((cur - 1, crash_class(rc, err)[0]))
            w.done = True
        # a candidate must fail again in a process of its own
        while candidates and not error:
            i, cls0 = candidates[0]
            s = seed_of(seed, i)
            got = None
            for _ in range(3):
                got = rn.single(["one", str(s), variant])
                if got[1]:
                    break
            if got[1]:
                break
            unconfirmed += 1
            sys.stderr.write("unconfirmed %s of seed %d (run %d)\n" % (cls0, s, i))
            candidates.pop(0)
            for w in ws:
                if w.done and w.p.poll() not in (None, 0) and time.time() - t0 < secs and w.k == i % workers:
                    w.done = False
                    w.start = i + workers
                    launch(w)
    for w in ws:
        if not w.done and w.p.poll() is None:
            w.p.kill()
            w.p.wait()
    if error:
        rn.close()
        print(error)
        return 2
    violation = None
    if candidates:
        i, _ = candidates[0]
        s = seed_of(seed, i)
        _, cls, msg, choices, dec = got
        c, d = rn.minimise(variant, s, cls, choices, dec)
        again = rn.try_replay(variant, s, c, d)
        if again[1] != cls:
            c, d = choices, dec
            again = got
        path = os.path.join(a["replay"], "%s-%s-%d.sim" % (harness, variant or "default", s))
        os.makedirs(a["replay"], exist_ok=True)
        rn.write_replay(path, variant, s, c, d, cls, again[2] or msg)
        violation = {"class": cls, "seed": s, "message": again[2] or msg, "replay": path,
                     "trace_before": len(choices) + len(dec), "trace_after": len([x for x in c if x]) + len(d)}
    if unconfirmed:
        counters["probe:unconfirmed"] = {"n": unconfirmed, "runs": unconfirmed}
    nt = sum(1 for x in distinct if x & 1)
    res = dict(total, distinct=len(distinct), distinct_nontrivial=nt, counters=counters, samples=samples,
               wall_s=time.time() - t0, violation=violation, digest="%016x" % digest)
    with open(a["out"], "w") as f:
        json.dump(res, f)
    rn.close()
    if violation:
        print("violation %s seed %d: %s" % (violation["class"], violation["seed"], violation["message"]))
        return 1
    return 0


def main():
    binary, harness, cmd = sys.argv[1:4]
    rest = sys.argv[4:]
    if cmd == "batch":
        a = {rest[i].lstrip("-"): rest[i + 1] for i in range(0, len(rest), 2)}
        return batch(binary, harness, a)
    verbose = "-v" in rest
    rest = [x for x in rest if x != "-v"]
    rn = Runner(binary, harness)
    try:
        if cmd == "replay":
            _, cls, msg, c, d = rn.single(["replay", rest[0]], verbose=verbose)
        else:
            _, cls, msg, c, d = rn.single(["one", rest[0], rest[1] if len(rest) > 1 else ""], verbose=verbose)
    finally:
        rn.close()
    if cls:
        print("violation %s: %s" % (cls, msg))
        return 1
    print("no violation (%d choices, %d scheduling decisions)" % (len(c), len(d)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
