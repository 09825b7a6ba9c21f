#!/usr/bin/env python3
"""mutate.py GROUP [-n MAX] [-s SEED] [-l LANES] [-w WORKERS] [-f FILTER] [-o OUT] [-r FILE] [-b FIRST_LANE]
Makes small changes (one token or statement each) to the sources a group of properties is anchored in,
in scratch copies of /repo, and runs the group's simulations against each. Prints the changes that
compile and that no simulation notices: each is either one that changes no behaviour, or a gap.
Each line of OUT (default /tmp/mut/GROUP-SEED.jsonl) is one change with what noticed it.
With -r, only the changes in FILE that survived are tried (again)."""
import json, os, random, re, shutil, subprocess, sys, time, queue, threading, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = {
    "lfvm": (["go/interpreter/lfvm/*.go"], [("lfvm", "proto", 6), ("lfvmrace", "log", 4), ("lfvmrace", "conc", 6), ("lfvm", "static", 3), ("lfvmrace", "stats", 4), ("lfvmrace", "hash", 3), ("ct", "step", 6)]),
    "floria": (["go/processor/floria/*.go"], [("floria", "tx", 5), ("floria", "frames", 6), ("floria", "state", 4), ("floria", "evm", 4), ("floriarace", "conc", 6)]),
    "opera": (["go/processor/opera/*.go", "go/geth_adapter/*.go", "go/interpreter/geth/*.go"], [("opera", "tx", 5), ("opera", "frames", 6), ("opera", "state", 4), ("opera", "adapter", 6), ("opera", "evm", 3), ("opera", "adapterevm", 3), ("operarace", "conc", 6)]),
    "evmc": (["go/interpreter/evmc/*.go", "go/interpreter/evmzero/*.go", "go/interpreter/evmrs/*.go", "go/interpreter/evmone/*.go"], [("evmc", "proto", 6), ("evmc", "step", 6), ("evmcrace", "conc", 6), ("evmcrace", "config", 5), ("evmcrace", "steprace", 5)]),
    "reg": (["go/tosca/*_registry.go"], [("reg", "all", 10)]),
    "driver": (["go/ct/driver/*.go", "go/ct/driver/cli/*.go"], [("ct", "run", 6), ("ct", "probe", 5), ("ct", "regressions", 5), ("ct", "stats", 4), ("ct", "test", 4), ("ctrace", "run", 6)]),
    "enum": (["go/ct/rlz/*.go", "go/ct/spc/specification.go"], [("ct", "enum", 5), ("ctrace", "enum", 5), ("ct", "repro", 8), ("ct", "test", 4)]),
    "gen": (["go/ct/gen/*.go"], [("ct", "repro", 8), ("ct", "history", 8)]),
    "st": (["go/ct/st/*.go", "go/ct/common/immutable*.go"], [("ct", "state", 8), ("ctrace", "shared", 5), ("ct", "step", 4)]),
    "ctlfvm": (["go/interpreter/lfvm/ct.go", "go/ct/utils/*.go"], [("ct", "step", 8), ("ctrace", "steprace", 5)]),
    "lru": (["cpp/common/lru_cache.h"], [("lru", "", 6), ("lru", "big", 3), ("lru", "race", 5), ("lru", "faults", 5)]),
    "sha3": (["cpp/vm/evmzero/sha3_cache.h", "cpp/common/hash_utils.h"], [("sha3", "", 8)]),
    "evmzero": (["cpp/vm/evmzero/*.h", "cpp/vm/evmzero/*.cc"], [("evmzero", "proto", 7), ("evmzero", "static", 4), ("evmzero", "step", 6), ("evmzero", "opts", 5), ("evmzero", "prof", 5), ("evmzero", "race", 6), ("evmzero", "threads", 4)]),
    "evmrs": (["rust/src/*.rs", "rust/src/*/*.rs", "rust/src/*/*/*.rs"], [("evmrs", "proto", 7), ("evmrs", "static", 4), ("evmrs", "step", 6), ("evmrs", "opts", 5), ("evmrs", "race", 6), ("evmrs", "threads", 4), ("evmrslocal", "proto", 3), ("evmrstable", "proto", 3), ("evmrsplain", "proto", 3)]),
}
SKIP = re.compile(r"_test\.(go|cc)$|test|mock|benchmark|string\.go$|main\.go$|dumper")
SUBST = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[(\s])!(?=[a-zA-Z(])", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
    (r"\bcontinue\b", "break"), (r"\+\+", "--"), (r"(?<![\w.\"'])(\d+)(?![\w.\"'])", lambda m: str(int(m.group(1)) + 1)), (r"\bnil\b", None),
]


def masked(text, rust):
    """The text with comments and string literals blanked."""
    out = list(text)
    pat = r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|`[^`]*`' if not rust else r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"'
    for m in re.finditer(pat, text, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != "\n":
                out[i] = "\x01"
    return "".join(out)


def mutants(repo, files):
    res = []
    for pat in files:
        for f in sorted(glob.glob(os.path.join(repo, pat))):
            if SKIP.search(os.path.basename(f)):
                continue
            rel = os.path.relpath(f, repo)
            text = open(f).read()
            rust = f.endswith(".rs")
            m = masked(text, rust)
            if rust and "#[cfg(test)]\nmod tests" in text:
                m = m[:text.index("#[cfg(test)]\nmod tests")]
            pos = 0
            depth = 0
            for no, line in enumerate(m.split("\n")):
                start, pos = pos, pos + len(line) + 1
                s = line.strip("\x01 \t")
                if not s or s.startswith(("#", "import", "package", "use ", "static_assert", "type ")) or "assert" in s.lower():
                    continue
                if "TOSCA" in s:
                    continue
                for a, b in SUBST:
                    if b is None:
                        continue
                    for x in re.finditer(a, line):
                        new = x.expand(b) if isinstance(b, str) else b(x)
                        res.append((rel, no + 1, start + x.start(), start + x.end(), new, x.group(0).strip() + "->" + new.strip()))
                # whole statements
                indent = len(line) - len(line.lstrip())
                if indent and not s.startswith(("return", "}", "{", "case", "default", "break", "continue", "else", "for ", "if ", "var ", "const ", "let ", "auto ")):
                    go = f.endswith(".go")
                    if (go and (re.search(r"[)\]\w+]$", s) and not s.endswith(",") and (re.search(r"^[\w.*\[\]()&]+(\.\w+)*\(.*\)$", s) or s.startswith(("defer ", "go ")) or (re.search(r" [-+|&]?= |\+\+$|--$", s) and ":=" not in s)))) \
                       or (not go and s.endswith(";") and s.count("(") == s.count(")")):
                        res.append((rel, no + 1, start + indent, start + len(line), "" if not (go and False) else "", "delete"))
                mm = re.match(r"^(\s*)return\b", line)
    return res


def lane(k, repo, q, batches, workers, out, lock, stat):
    base = "/tmp/mut/lane%d" % k
    for d in ("repo", "build", "tmp"):
        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    os.makedirs(base + "/build/rp"); os.makedirs(base + "/tmp")
    subprocess.check_call(["rsync", "-a", "--exclude=.git", "--exclude=build", "--exclude=target", repo + "/", base + "/repo"] if shutil.which("rsync") else ["cp", "-a", repo, base + "/repo"])
    env = dict(os.environ, SIM_REPO=base + "/repo", SIM_BUILD=base + "/build", SIM_NOEV="1", SIM_WORKERS=str(workers), SIM_TMP=base + "/tmp", PYTHONDONTWRITEBYTECODE="1")
    code = r"""
import sys, json
bs = json.loads(sys.argv[1])
__file__ = %r + "/run.py"
exec(compile(open(__file__).read().replace("sys.exit(main())", "pass"), __file__, "exec"))
class R: pass
for k in ("build_harness", "BuildError", "batch", "SEED", "BUILD"): setattr(R, k, globals()[k])
try:
    bins = {}
    for h, v, t in bs:
        if h not in bins: bins[h] = R.build_harness(h)
except R.BuildError as e:
    print(json.dumps(["nobuild", str(e)[-300:]])); sys.exit()
try:
    for h, v, t in bs:
        d = R.batch(bins[h], h, v, R.SEED, 10**7, t, R.BUILD + "/rp")
        if d["violation"]:
            print(json.dumps(["killed", h + "/" + v, d["violation"]["class"]])); sys.exit()
    print(json.dumps(["SURVIVED"]))
except R.BuildError as e:
    print(json.dumps(["error", str(e)[-1500:]]))
""" % V
    while True:
        try:
            mu = q.get_nowait()
        except queue.Empty:
            return
        rel, no, a, b, new, what = mu
        p = base + "/repo/" + rel
        orig = open(p).read()
        t = time.time()
        try:
            open(p, "w").write(orig[:a] + new + orig[b:])
            r = subprocess.run(["timeout", "600", "python3", "-c", code, json.dumps(batches)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try:
                res = json.loads(r.stdout.strip().split("\n")[-1])
            except Exception:
                res = ["error", r.stdout[-800:]]
        finally:
            open(p, "w").write(orig)
        line = orig.split("\n")[no - 1].strip()
        with lock:
            stat[res[0]] = stat.get(res[0], 0) + 1
            out.write(json.dumps(dict(mu=mu, line=line, res=res, s=round(time.time() - t, 1))) + "\n"); out.flush()
            if res[0] in ("SURVIVED", "error"):
                print("%s %s:%d %s | %s %s" % (res[0], rel, no, what, line[:140], res[1][-200:] if res[0] == "error" else ""), flush=True)
        for x in os.listdir(base + "/tmp"):
            shutil.rmtree(os.path.join(base, "tmp", x), ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = dict(n=60, s=1, l=4, w=2, f="", o="", r="", b=0)
    pos = []
    while a:
        if a[0].startswith("-"):
            opt[a[0][1:]] = type(opt[a[0][1:]])(a[1]); a = a[2:]
        else:
            pos.append(a.pop(0))
    repo = os.environ.get("SIM_REPO", "/repo")
    for g in pos:
        files, batches = GROUPS[g]
        mus = [m for m in mutants(repo, files) if re.search(opt["f"], m[0])]
        total = len(mus)
        if opt["r"]:
            mus = [d["mu"] for d in map(json.loads, open(opt["r"])) if d["res"][0] == "SURVIVED"]
        random.Random(opt["s"]).shuffle(mus)
        mus = mus[:opt["n"]]
        q = queue.Queue()
        for m in mus:
            q.put(m)
        stat = {}
        outp = opt["o"] or "/tmp/mut/%s-%d.jsonl" % (g, opt["s"])
        print("== %s: %d of %d changes" % (g, len(mus), total), flush=True)
        t0 = time.time()
        with open(outp, "a") as out:
            lock = threading.Lock()
            ts = [threading.Thread(target=lane, args=(k + opt["b"], repo, q, batches, opt["w"], out, lock, stat)) for k in range(opt["l"])]
            for t in ts: t.start()
            for t in ts: t.join()
        print("== %s: %s in %.0f s" % (g, stat, time.time() - t0), flush=True)


main()
