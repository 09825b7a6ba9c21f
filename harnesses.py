"""What is built, and which batches decide which property."""
import json
import os
import re
import threading
import __main__ as R
import concurrent.futures as cf

CPP = os.path.join(R.VERIF, "cpp")
ABSL = ["-labsl_raw_hash_set", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash"]

EVMZERO = ["vm/evmzero/" + f for f in ("evmzero.cc", "interpreter.cc", "memory.cc", "opcodes.cc", "stack.cc")]

# name -> (kind, main source, extra sources, extra flags)
HARNESSES = {
    "lru": dict(kind="cpp", main="harness/lru.cc", repo=[], flags=[]),
    "evmzero": dict(kind="cpp", main="harness/evmzero.cc", repo=EVMZERO, flags=[], plain=["ref/evmref.cc", "shim/keccak.cc", "shim/intxops.cc"]),
    "sha3": dict(kind="cpp", main="harness/sha3.cc", repo=[], flags=[], plain=["shim/keccak.cc", "shim/intxops.cc"]),
}
# without the assertions, as for benchmarks and production
HARNESSES["evmzerofast"] = dict(HARNESSES["evmzero"], fast=True)
HARNESSES["lrufast"] = dict(HARNESSES["lru"], fast=True)
HARNESSES["evmrs"] = dict(kind="cpp", main="harness/evmzero.cc", repo=[], flags=["-DEVMRS"], plain=["ref/evmref.cc", "shim/keccak.cc", "shim/intxops.cc"], rust="performance")
for f in ("local", "table", "plain"):
    HARNESSES["evmrs" + f] = dict(HARNESSES["evmrs"], rust=f)

LFVM_PKGS = [dict(path="tosca", Reset=True),
             dict(path="tosca/vm"),
             dict(path="interpreter/lfvm", Yields=True, Reset=True, Shrink=True, Imports={"fmt": "github.com/Fantom-foundation/Tosca/go/dst/simfmt", "os": "github.com/Fantom-foundation/Tosca/go/dst/simos"})]
HARNESSES["lfvm"] = dict(kind="go", main="lfvm", lib=["evmref"], pkgs=[dict(p, Yields=False) for p in LFVM_PKGS])
HARNESSES["lfvmrace"] = dict(kind="go", main="lfvm", lib=["evmref"], pkgs=LFVM_PKGS, race=True)

SIM_IMPORTS = {"fmt": "github.com/Fantom-foundation/Tosca/go/dst/simfmt", "os": "github.com/Fantom-foundation/Tosca/go/dst/simos"}
CT_PKGS = [dict(path="tosca", Reset=True),
           dict(path="ct/st", Yields=True, Reset=True, Imports=SIM_IMPORTS),
           dict(path="ct/gen"), dict(path="ct/rlz"), dict(path="ct/common"), dict(path="ct/utils"),
           dict(path="ct/spc", Yields=True),
           dict(path="ct/driver", to="ct/driverx", Package="driver", Drop=["main.go"], Yields=True, Reset=True, Imports=SIM_IMPORTS),
           dict(path="ct/driver/cli", Yields=True, Imports=SIM_IMPORTS),
           dict(path="interpreter/lfvm", Reset=True, Shrink=True, Imports=SIM_IMPORTS)]
CT_EXTRA = {"stubs/geth": "interpreter/geth", "stubs/evmzero": "interpreter/evmzero", "stubs/evmrs": "interpreter/evmrs",
            "stubs/libcpp": "lib/cpp", "stubs/librust": "lib/rust", "stubs/driverx": "ct/driverx"}
HARNESSES["ct"] = dict(kind="go", main="ct", lib=["evmref"], pkgs=[dict(p, Yields=False) for p in CT_PKGS], extra=CT_EXTRA)
HARNESSES["ctrace"] = dict(kind="go", main="ct", lib=["evmref"], pkgs=CT_PKGS, extra=CT_EXTRA, race=True)
HARNESSES["reg"] = dict(kind="go", main="reg", pkgs=[dict(path="tosca", Yields=True, Reset=True)], race=True)
NO_C = {"C": "github.com/Fantom-foundation/Tosca/go/dst/simc"}
EVMC_PKGS = [p for p in CT_PKGS if "driver" not in p["path"]] + [
    dict(path="interpreter/evmc", Yields=True, Reset=True, Imports=NO_C), dict(path="interpreter/evmzero", Yields=True, Reset=True, Imports=NO_C),
    dict(path="interpreter/evmrs", Yields=True, Reset=True, Imports=NO_C), dict(path="interpreter/evmone", Yields=True, Reset=True, Imports=NO_C)]
EVMC = dict(kind="go", main="evmc", lib=["evmref", "simc"], also=["ct/step.go", "ct/state.go", "ct/repro.go"])
HARNESSES["evmc"] = dict(EVMC, pkgs=[dict(p, Yields=False) for p in EVMC_PKGS])
HARNESSES["evmcrace"] = dict(EVMC, pkgs=[dict(p, Yields=False if p["path"].startswith("ct/") else p.get("Yields", False)) for p in EVMC_PKGS], race=True)
FLORIA_PKGS = [dict(path="processor/floria", Yields=True, Reset=True)] + LFVM_PKGS
OPERA_PKGS = [dict(path="processor/opera", Yields=True, Reset=True), dict(path="geth_adapter", Yields=True, Reset=True), dict(path="interpreter/geth", Yields=True, Reset=True)] + [
    p for p in CT_PKGS if "driver" not in p["path"] and p["path"] != "interpreter/lfvm"] + LFVM_PKGS[1:]
OPERA = dict(kind="go", main="opera", lib=["evmref"], also=["floria/run.go", "floria/job.go", "floria/gen.go", "floria/script.go"])
HARNESSES["opera"] = dict(OPERA, pkgs=[dict(p, Yields=False) for p in OPERA_PKGS])
HARNESSES["operarace"] = dict(OPERA, pkgs=[dict(p, Yields=False) if p["path"].startswith("ct/") else p for p in OPERA_PKGS], race=True)
HARNESSES["floria"] = dict(kind="go", main="floria", lib=["evmref"], pkgs=[dict(p, Yields=False) for p in FLORIA_PKGS])
HARNESSES["floriarace"] = dict(kind="go", main="floria", lib=["evmref"], pkgs=FLORIA_PKGS, race=True)


def build_cpp(name, h):
    out = os.path.join(R.BUILD, "cpp", name)
    os.makedirs(out, exist_ok=True)
    target = os.path.join(out, name)
    rust = [os.path.join(R.REPO, "rust"), os.path.join(R.VERIF, "rust")] if h.get("rust") else []
    key = R.tree_key(([] if rust else [os.path.join(R.REPO, "cpp")]) + rust + [CPP], [name, h, R.REPO])
    if R.cached(target, key):
        return target
    inst = ["clang++", "-std=c++20", "-O1", "-g", "-fsanitize=thread", "-w"] + ([] if h.get("fast") else ["-DTOSCA_ASSERT_ENABLED=1"]) + h["flags"] + [
        "-I" + os.path.join(R.REPO, "cpp"), "-I" + os.path.join(CPP, "sim"), "-I" + os.path.join(CPP, "shim"), "-I" + os.path.join(CPP, "ref")]
    jobs = [(["g++", "-std=c++20", "-O2", "-g", "-w", "-c", os.path.join(CPP, "sim/sim.cc")], "sim.o")]
    jobs.append((inst + ["-c", os.path.join(CPP, h["main"])], "main.o"))
    for s in h.get("plain", []):
        jobs.append((["clang++", "-std=c++20", "-O2", "-g", "-w", "-I" + os.path.join(CPP, "sim"), "-I" + os.path.join(CPP, "ref"), "-c", os.path.join(CPP, s)], s.replace("/", "_") + ".o"))
    for s in h["repo"]:
        jobs.append((inst + ["-c", os.path.join(R.REPO, "cpp", s)], s.replace("/", "_") + ".o"))
    libs = []
    with cf.ThreadPoolExecutor(8) as ex:
        if rust:
            libs = ex.submit(R.sh, ["python3", os.path.join(R.VERIF, "rust/build.py"), R.REPO, os.path.join(out, "rust"), "features=" + h["rust"]])
        for f in [ex.submit(R.sh, c + ["-o", os.path.join(out, o)]) for c, o in jobs]:
            f.result()
        if rust:
            libs.result()
            libs = [os.path.join(out, "rust", f) for f in ("libevmrs.a", "llvm_profile_wrappers.o")] + ["-ldl", "-lm"]
    R.sh(["g++", "-no-pie"] + [os.path.join(out, o) for _, o in jobs] + libs + ABSL + ["-lpthread", "-o", target])
    R.set_key(target, key)
    return target


GO = os.path.join(R.VERIF, "go")
GOMOD = "github.com/Fantom-foundation/Tosca"
SHIMS = {"github.com/holiman/uint256": "uint256", "pgregory.net/rand": "pgrand", "github.com/hashicorp/golang-lru/v2": "lru/v2",
         "golang.org/x/exp": "exp", "golang.org/x/crypto": "xcrypto", "github.com/dsnet/golib/unitconv": "unitconv",
         "github.com/urfave/cli/v2": "cli", "github.com/ethereum/go-ethereum": "geth", "github.com/ethereum/evmc/v11": "evmc"}
SIMFMT, SIMOS = GOMOD + "/go/dst/simfmt", GOMOD + "/go/dst/simos"
GO_LOCK = threading.Lock()


def goenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    e.update(GOCACHE=os.path.join(R.BUILD, "gocache"), GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off",
             GOPATH=os.path.join(R.BUILD, "gopath"), CGO_ENABLED="1", HOME=os.environ.get("HOME", "/root"), GOTELEMETRY="off")
    return e


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def copy_go(src, dst, clean=True):
    os.makedirs(dst, exist_ok=True)
    names = [f for f in sorted(os.listdir(src)) if f.endswith((".go", ".c", ".h", ".cc"))]
    for f in names:
        put(os.path.join(dst, f), open(os.path.join(src, f)).read())
    for f in os.listdir(dst):
        if clean and os.path.isfile(os.path.join(dst, f)) and f not in names:
            os.unlink(os.path.join(dst, f))


def go_overlay():
    with GO_LOCK:
        out = os.path.join(R.BUILD, "gosim", "overlay")
        R.sh(["python3", os.path.join(GO, "overlay/gen.py"), out], env=goenv())
        rw = os.path.join(R.BUILD, "gosim", "rewrite")
        key = R.tree_key([os.path.join(GO, "rewrite")], [])
        if not R.cached(rw, key):
            R.sh(["go", "build", "-o", rw, "."], cwd=os.path.join(GO, "rewrite"), env=goenv())
            R.set_key(rw, key)
        return os.path.join(out, "overlay.json"), rw


def build_go(name, h):
    top = os.path.join(R.BUILD, "gosim", name)
    src = os.path.join(top, "src")
    target = os.path.join(top, "run.sh")
    key = R.tree_key([os.path.join(R.REPO, "go"), GO] + [os.path.join(R.VERIF, x) for x in h.get("keys", [])], [name, h, R.REPO])
    if R.cached(target, key):
        return target
    os.makedirs(src, exist_ok=True)
    overlay, rw = go_overlay()
    mod = "module %s\n\ngo 1.22.0\n\nrequire (\n" % GOMOD
    mod += "".join("\t%s v%s.0.0\n" % (m, m[-1] if m[-3:-1] == "/v" else "11" if m.endswith("v11") else "0") for m in SHIMS) + ")\n\n"
    for m, d in SHIMS.items():
        mod += "replace %s => %s\n" % (m, os.path.join(GO, "shims", d))
    put(os.path.join(src, "go.mod"), mod)
    cfg = {"Simrt": GOMOD + "/go/dst/simrt", "Pkgs": []}
    for p in h["pkgs"]:
        p = dict(p)
        path = p.pop("path")
        d = {"Src": os.path.join(R.REPO, "go", path), "Dst": os.path.join(src, "go", p.pop("to", path)), "Alias": path}
        d.update(p)
        cfg["Pkgs"].append(d)
    # every other package of the repository in the import closure is copied as it is
    todo, seen = [x["Src"] for x in cfg["Pkgs"]] + [os.path.join(GO, "dst", d) for d in h.get("lib", [])] + [os.path.join(GO, "harness", h["main"])], set()
    have = {x["Dst"] for x in cfg["Pkgs"]}
    while todo:
        d = todo.pop()
        if d in seen or not os.path.isdir(d):
            continue
        seen.add(d)
        drop = [x.get("Drop", []) for x in cfg["Pkgs"] if x["Src"] == d]
        repl = [x.get("Imports", {}) for x in cfg["Pkgs"] if x["Src"] == d]
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go") or f.endswith(("_test.go", "_mock.go", "_mocks.go")) or (drop and f in drop[0]):
                continue
            text = open(os.path.join(d, f)).read()
            if '"go.uber.org/mock/gomock"' in text:
                continue
            for path in re.findall(r'^(?:import )?\s*(?:[\w.]+ )?"%s/(go/[^"]+)"' % re.escape(GOMOD), text, flags=re.M):
                if path.startswith("go/dst/") or (repl and GOMOD + "/" + path in repl[0]):
                    continue
                dst = os.path.join(src, path)
                if dst not in have and path[3:] not in h.get("extra", {}).values():
                    have.add(dst)
                    cfg["Pkgs"].append({"Src": os.path.join(R.REPO, path), "Dst": dst, "Alias": path})
                todo.append(os.path.join(R.REPO, path))
    put(os.path.join(top, "rewrite.json"), json.dumps(cfg, indent=1))
    R.sh([rw, os.path.join(top, "rewrite.json")])
    for d in ["simrt", "simos", "simfmt"] + h.get("lib", []):
        copy_go(os.path.join(GO, "dst", d), os.path.join(src, "go/dst", d))
    copy_go(os.path.join(GO, "harness", h["main"]), os.path.join(src, "go/dst/h_" + h["main"]))
    for f in h.get("also", []):
        put(os.path.join(src, "go/dst/h_" + h["main"], "also_" + os.path.basename(f)), open(os.path.join(GO, "harness", f)).read())
    for d, to in h.get("extra", {}).items():
        copy_go(os.path.join(GO, d), os.path.join(src, "go", to), clean=os.path.join(src, "go", to) not in have)
    binary = os.path.join(top, "sim")
    cmd = ["go", "build", "-overlay", overlay, "-tags", "faketime", "-o", binary] + (["-race"] if h.get("race") else [])
    R.sh(cmd + ["./go/dst/h_" + h["main"]], cwd=src, env=goenv())
    put(target, "#!/bin/sh\nexec python3 %s %s %s \"$@\"\n" % (os.path.join(GO, "coord.py"), binary, name))
    os.chmod(target, 0o755)
    R.set_key(target, key)
    return target


def build_harness(name):
    h = HARNESSES[name]
    return build_go(name, h) if h["kind"] == "go" else build_cpp(name, h)


def tier(q, t):
    return dict(quick=q, thorough=t)


LRU_REAL = ["cpp/common/lru_cache.h (whole), the hash index it uses (abseil), std::mutex users"]
LRU_STUB = ["pthread mutex, heap and thread scheduler are the simulator's; client threads are generated programs"]
SCHED_RULE = ("A run is one seed: a generated program per client thread plus a schedule (random walk with a seeded gap, PCT priorities, or run-to-block) in which every "
              "instrumented memory access, atomic and lock operation is a possible switch. ")

CHECKS = {
    "C01": dict(
        **tier([("lru", "", 60000, 14), ("lru", "big", 20000, 6), ("lrufast", "", 10**6, 5)], [("lru", "", 10**9, 300), ("lru", "big", 10**9, 120), ("lrufast", "", 10**9, 60)]),
        rule=SCHED_RULE + "Non-trivial: at least two operations overlapped, or an operation failed. Distinct: by log digest.",
        real=LRU_REAL, stub=LRU_STUB,
        assumes=["memory accesses are sequentially consistent in the simulation (weak-memory effects are covered only through the data-race check C02)"]),
    "C02": dict(
        **tier([("lru", "race", 60000, 18)], [("lru", "race", 10**9, 400)]),
        rule=SCHED_RULE + "Accesses are checked against happens-before clocks, live heap blocks and leaks. Non-trivial: operations of two threads overlapped.",
        real=LRU_REAL, stub=LRU_STUB,
        assumes=["clang's thread instrumentation reports every access of the inlined container and index code"]),
    "C03": dict(
        **tier([("lru", "faults", 60000, 18)], [("lru", "faults", 10**9, 400)]),
        rule=SCHED_RULE + "Value factories throw, and the k-th key or value copy inside an operation fails. Non-trivial: a fault fired or operations overlapped.",
        real=LRU_REAL, stub=LRU_STUB,
        assumes=["failures inside the hash index library itself are out of scope: it does not promise to survive them"]),
}

EVM_REAL = ["all of cpp/vm/evmzero (machine, interpreter, stepping interface, stack pool, memory, caches, logger, profiler) and cpp/common/lru_cache.h, hash_utils.h, assert.h"]
EVM_STUB = ["host and world state (cpp/ref), with injected callee behaviour: refused, failing, reverting, re-entering, arbitrary result",
            "stand-ins for evmc headers, intx and ethash (submodules absent from the checkout)", "thread scheduler, mutex and heap are the simulator's"]
EVM_ASSUME = ["the stand-ins for evmc, intx and ethash behave like the libraries", "clang's -O1 build, with the assertions on (evmzero) and off (evmzerofast), represents the shipped build"]
EVM_RULE = "A run is one seed: generated contracts, a world, and a sequence of transactions with a seeded fate (fault or not) for each nested message. "

CHECKS.update({
    "C04": dict(
        **tier([("sha3", "", 10**6, 14)], [("sha3", "", 10**9, 400)]),
        rule=SCHED_RULE + "Every returned hash is compared with an independent Keccak-256; caches start empty or two entries below capacity. Non-trivial: hash calls overlapped, or a sequential history.",
        real=["cpp/vm/evmzero/sha3_cache.h, cpp/common/lru_cache.h, cpp/common/hash_utils.h"], stub=EVM_STUB[1:],
        assumes=["the stand-in Keccak-256 replaces the ethash library, which is not part of the checkout"]),
    "C05": dict(
        **tier([("evmzero", "race", 10**6, 14), ("evmzero", "threads", 10**6, 8), ("evmzerofast", "race", 10**6, 5)], [("evmzero", "race", 10**9, 300), ("evmzero", "threads", 10**9, 200), ("evmzerofast", "race", 10**9, 100)]),
        rule=SCHED_RULE + "Client threads run generated transactions on one machine; every result is compared with the same transaction run alone on another machine. Non-trivial: executions overlapped.",
        real=EVM_REAL, stub=EVM_STUB, assumes=EVM_ASSUME),
    "C06": dict(
        **tier([("evmzero", "proto", 10**6, 20), ("evmzerofast", "proto", 10**6, 5)], [("evmzero", "proto", 10**9, 500), ("evmzerofast", "proto", 10**9, 100)]),
        rule=EVM_RULE + "Compared with an independent reference machine: outcome, gas, refund, output, order and content of all host effects, final world. Non-trivial: more than three instructions ran.",
        real=EVM_REAL, stub=EVM_STUB, assumes=EVM_ASSUME + ["the reference interpreter of /verif/cpp/ref implements the EVM rules from Istanbul to Cancun correctly"]),
    "C07": dict(
        **tier([("evmzero", "static", 10**6, 20), ("evmzerofast", "static", 10**6, 5)], [("evmzero", "static", 10**9, 400), ("evmzerofast", "static", 10**9, 100)]),
        rule=EVM_RULE + "The host watches every effect and every nested message of static frames, and compares the outcome of transactions with static frames with the reference. Non-trivial: a static frame ran.",
        real=EVM_REAL, stub=EVM_STUB, assumes=EVM_ASSUME),
    "C08": dict(
        **tier([("evmzero", "step", 10**6, 22), ("evmzerofast", "step", 10**6, 5)], [("evmzero", "step", 10**9, 500), ("evmzerofast", "step", 10**9, 100)]),
        rule=EVM_RULE + "An execution is killed after every n instructions (one by one and in random pieces, in nested frames too) and resumed on the same or another machine from the returned state only. Non-trivial: at least three pieces.",
        real=EVM_REAL, stub=EVM_STUB, assumes=EVM_ASSUME),
    "C09": dict(
        **tier([("evmzero", "opts", 10**6, 22), ("evmzerofast", "opts", 10**6, 5)], [("evmzero", "opts", 10**9, 400), ("evmzerofast", "opts", 10**9, 100)]),
        rule=EVM_RULE + "Options are flipped between executions, the log sink fails after a random number of bytes; results are compared with a machine without caches and observers. Non-trivial: the execution had effects.",
        real=EVM_REAL, stub=EVM_STUB + ["standard output is a simulated sink that can fill up"], assumes=EVM_ASSUME),
    "C10": dict(
        **tier([("evmzero", "prof", 10**6, 20), ("evmzerofast", "prof", 10**6, 5)], [("evmzero", "prof", 10**9, 400), ("evmzerofast", "prof", 10**9, 100)]),
        rule=EVM_RULE + "Time is a simulated clock which host calls advance by random amounts; the dumped report is compared with exact counts and with bounds on the ticks. Non-trivial: more than three instructions ran.",
        real=EVM_REAL, stub=EVM_STUB + ["the processor clock is simulated, standard output is a simulated sink"], assumes=EVM_ASSUME),
})

LF_REAL = ["all of go/interpreter/lfvm and go/tosca (the repository's sources with scheduling points inserted, compiled with Go's race detector where the variant is concurrent)", "Go's garbage collector, maps and sync package"]
LF_STUB = ["world state and callees (go/dst/evmref) with injected callee behaviour: refused, failing, reverting, re-entering, arbitrary result",
           "stand-ins for holiman/uint256, golang-lru, x/crypto/sha3 and pgregory.net/rand (not available offline)", "goroutine scheduler, clock, map order, randomness, standard output and files are the simulator's"]
LF_ASSUME = ["the stand-ins for third-party libraries behave like the libraries", "memory accesses are sequentially consistent between scheduling points (weak-memory effects only as data races)"]
GO_SCHED = ("A run is one seed: generated programs of the client goroutines plus a schedule (random walk, PCT priorities, or run-to-block); every statement of the "
            "instrumented packages, lock, channel and pool operation is a possible switch. ")
CHECKS.update({
    "C11": dict(
        **tier([("lfvmrace", "hash", 10**6, 20)], [("lfvmrace", "hash", 10**9, 400)]),
        rule=GO_SCHED + "Goroutines hash through one cache with capacities of a few entries; every result is compared with an independent Keccak-256, races are reported by Go's detector. Non-trivial: calls of two goroutines overlapped.",
        real=LF_REAL, stub=LF_STUB, assumes=LF_ASSUME),
    "C12": dict(
        **tier([("lfvmrace", "conc", 10**6, 22)], [("lfvmrace", "conc", 10**9, 500)]),
        rule=GO_SCHED + "Clients run generated transactions on one interpreter; every result is compared with the same transaction on the reference machine alone. Non-trivial: executions overlapped.",
        real=LF_REAL, stub=LF_STUB, assumes=LF_ASSUME),
    "C13": dict(
        **tier([("lfvmrace", "stats", 10**6, 20)], [("lfvmrace", "stats", 10**9, 400)]),
        rule=GO_SCHED + "The dumped statistics are compared with counts derived from the reference machine's instruction trace of every run. Non-trivial: runs overlapped or nested.",
        real=LF_REAL, stub=LF_STUB, assumes=LF_ASSUME),
    "C14": dict(
        **tier([("lfvmrace", "log", 10**6, 20)], [("lfvmrace", "log", 10**9, 400)]),
        rule=EVM_RULE + "Run with every observer and cache configuration and a log sink that fails at a seeded write; compared with the reference and the instruction trace. Non-trivial: the execution had effects or the sink failed.",
        real=LF_REAL, stub=LF_STUB, assumes=LF_ASSUME),
    "C15": dict(
        **tier([("lfvm", "proto", 10**6, 20)], [("lfvm", "proto", 10**9, 500)]),
        rule=EVM_RULE + "Compared with an independent reference machine: outcome, gas, refund, output, order and content of all world-state effects. Non-trivial: more than three instructions ran.",
        real=LF_REAL, stub=LF_STUB, assumes=LF_ASSUME + ["the reference interpreter of /verif/go/dst/evmref implements the EVM rules from Istanbul to Cancun correctly"]),
    "C16": dict(
        **tier([("lfvm", "static", 10**6, 20)], [("lfvm", "static", 10**9, 400)]),
        rule=EVM_RULE + "The world state watches every effect and every nested message of static frames, and compares the outcome of transactions with static frames with the reference. Non-trivial: a static frame ran.",
        real=LF_REAL, stub=LF_STUB, assumes=LF_ASSUME),
})

CT_REAL = ["go/ct/{st,gen,rlz,spc,common,utils}, the commands of go/ct/driver (all but main.go) and go/ct/driver/cli, and go/interpreter/lfvm with its conformance-test adapter: the repository's sources with scheduling points inserted"]
CT_STUB = ["the tested EVM is a programmable target in place of evmzero/evmrs/geth: the specification itself with injected wrong results, panics, delays, unsupported revisions (some runs use the real lfvm)",
           "stand-ins for urfave/cli, unitconv, holiman/uint256, golang-lru, pgregory.net/rand and x/exp (not available offline)",
           "goroutine scheduler, clock, map order, randomness, file system, standard output and signals are the simulator's"]
CT_ASSUME = LF_ASSUME
CHECKS.update({
    "C17": dict(
        **tier([("ctrace", "enum", 10**6, 14), ("ct", "enum", 10**6, 8)], [("ctrace", "enum", 10**9, 300), ("ct", "enum", 10**9, 200)]),
        rule=GO_SCHED + "Synthetic rules with a known set of test cases (unsatisfiable, unfit and failing ones among them) are enumerated by a random number of workers with slow, aborting and state-destroying consumers and a simulated progress clock. "
        "Non-trivial: states were consumed at the same time, or an abort or generator error happened.",
        real=CT_REAL, stub=CT_STUB[1:], assumes=CT_ASSUME),
    "C18": dict(
        **tier([("ct", "repro", 10**6, 16), ("ct", "history", 10**6, 12)], [("ct", "repro", 10**9, 300), ("ct", "history", 10**9, 250)]),
        rule="A run is one seed: a rule of the specification or a random composition of constraints, whose test cases or states are generated several times from one seed under different simulated map iteration orders and interpreter randomness; or a history of several related generators that are copied, restored, restricted, printed and used, where each state is compared with that of a fresh generator with the same constraints and checked against these. Non-trivial: a state was generated.",
        real=CT_REAL, stub=CT_STUB[1:], assumes=CT_ASSUME),
    "C19": dict(
        **tier([("ct", "run", 10**6, 15), ("ctrace", "run", 10**6, 14)], [("ct", "run", 10**9, 300), ("ctrace", "run", 10**9, 300)]),
        rule=GO_SCHED + "The run command tests a target that misbehaves (wrong result, error, panic, delay, unsupported revision) in seeded steps, on a disk that fails, fills up and tears writes. The verdict, report and exported files are compared with the injected issues. "
        "Non-trivial: tests overlapped or an issue was injected.",
        real=CT_REAL, stub=CT_STUB, assumes=CT_ASSUME),
    "C20": dict(
        **tier([("ct", "stats", 10**6, 8), ("ct", "test", 10**6, 10), ("ctrace", "stats", 10**6, 6), ("ctrace", "test", 10**6, 6)],
               [("ct", "stats", 10**9, 150), ("ct", "test", 10**9, 200), ("ctrace", "stats", 10**9, 100), ("ctrace", "test", 10**9, 100)]),
        rule=GO_SCHED + "stats is compared with a sequential count; test runs on specifications with injected conflicting rules, whose conflicts are counted independently, and on the real one. Non-trivial: more than one state, more than one job.",
        real=CT_REAL, stub=CT_STUB[1:], assumes=CT_ASSUME),
    "C21": dict(
        **tier([("ct", "probe", 10**6, 12), ("ctrace", "probe", 10**6, 10)], [("ct", "probe", 10**9, 250), ("ctrace", "probe", 10**9, 250)]),
        rule=GO_SCHED + "The probe command runs against a slow, misbehaving target under a simulated clock. Non-trivial: probes overlapped or an issue was injected.",
        real=CT_REAL, stub=CT_STUB, assumes=CT_ASSUME),
    "C22": dict(
        **tier([("ct", "regressions", 10**6, 16)], [("ct", "regressions", 10**9, 400)]),
        rule="A run is one seed: a directory tree of exported states, some torn, garbage, or unreadable, and a target with seeded misbehaviour. Non-trivial: more than one file.",
        real=CT_REAL, stub=CT_STUB, assumes=CT_ASSUME),
    "C23": dict(
        **tier([("ct", "state", 10**6, 16), ("ctrace", "shared", 10**6, 10)], [("ct", "state", 10**9, 300), ("ctrace", "shared", 10**9, 200)]),
        rule="A run is one seed: a history of copies, changes, releases, exports to and imports from a failing disk (with crashes that keep durable data only), compared with unshared models; and goroutines changing copies of the same states under a seeded scheduler. "
        "Non-trivial: more than one state alive.",
        real=CT_REAL, stub=CT_STUB[1:], assumes=CT_ASSUME),
    "C24": dict(
        **tier([("ct", "step", 10**6, 14), ("ctrace", "steprace", 10**6, 10)], [("ct", "step", 10**9, 300), ("ctrace", "steprace", 10**9, 200)]),
        rule=GO_SCHED + "Generated contracts run on the conformance-test target one instruction at a time, each compared with the specification, and in seeded pieces with restarts from exported files, alone and with several goroutines on one target. Non-trivial: more than one piece.",
        real=CT_REAL, stub=CT_STUB[1:], assumes=CT_ASSUME),
    "C25": dict(
        **tier([("reg", "all", 10**6, 14)], [("reg", "all", 10**9, 300)]),
        rule=GO_SCHED + "Goroutines register, look up, create and list under names in differing case, change the listings they got, and use factories that fail, panic, take long or use the registry themselves; "
        "the recorded history must be linearizable. Non-trivial: operations of two goroutines overlapped.",
        real=["go/tosca: interpreter_registry.go, processor_registry.go (with scheduling points inserted, race detector on)"],
        stub=["factories, interpreters and processors are stand-ins with injected behaviour", "goroutine scheduler and clock are the simulator's"], assumes=LF_ASSUME),
})

FL_REAL = ["all of go/processor/floria and go/tosca, in part of the runs with the real go/interpreter/lfvm (the repository's sources with scheduling points inserted, with Go's race detector where the variant is concurrent)"]
FL_STUB = ["the world state (go/dst/evmref)", "scripted contracts in place of an interpreter, which revert, fail, report errors or panic, and the real lfvm on generated contracts",
           "stand-ins for the parts of go-ethereum the processor imports: Keccak-256 and contract addresses, ABI words, and synthetic precompiled contracts (one set per revision, with costs up to 2^64-1 and failing inputs)"]
FL_ASSUME = LF_ASSUME + ["the reference processor of /verif/go/dst/evmref/processor.go implements the documented rules, including the network's own: 10% of the unused gas is charged, no change of the access list without one in the transaction"]
FL_RULE = ("A run is one seed: a world and up to three transactions in sequence, each a tree of frames of scripted contracts (or generated contracts on lfvm) with a seeded fate for each frame: success, revert, failure, out of gas, interpreter error, panic. "
           "What every frame is given and what every caller is told, the receipt, the resulting world, access lists and logs are compared with an independent reference processor. ")
CHECKS.update({
    "C26": dict(
        **tier([("floria", "tx", 10**6, 16), ("floria", "evm", 10**6, 6)], [("floria", "tx", 10**9, 350), ("floria", "evm", 10**9, 120)]),
        rule=FL_RULE + "Transactions are also invalid in seeded ways, short of gas or funds at the boundary, or priced beyond 256 bits. Non-trivial: nested frames, or a rejected transaction.",
        real=FL_REAL, stub=FL_STUB, assumes=FL_ASSUME),
    "C27": dict(
        **tier([("floria", "frames", 10**6, 18), ("floria", "evm", 10**6, 6)], [("floria", "frames", 10**9, 350), ("floria", "evm", 10**9, 120)]),
        rule=FL_RULE + "Some runs recurse to the depth limit; creations meet taken addresses, bad and oversized code. Non-trivial: nested frames.",
        real=FL_REAL, stub=FL_STUB, assumes=FL_ASSUME),
    "C28": dict(
        **tier([("floriarace", "conc", 10**6, 22)], [("floriarace", "conc", 10**9, 450)]),
        rule=GO_SCHED + "Clients process transactions of their own worlds on one processor, over scripted contracts and lfvm; every outcome is compared with the reference of the same transaction alone. Non-trivial: transactions overlapped.",
        real=FL_REAL, stub=FL_STUB + ["goroutine scheduler is the simulator's"], assumes=FL_ASSUME),
    "C29": dict(
        **tier([("floria", "state", 10**6, 20)], [("floria", "state", 10**9, 400)]),
        rule=FL_RULE + "Most messages go to the state contract, well-formed or not, from the driver, others, in static frames, and in frames that fail later. Non-trivial: nested frames, or a rejected transaction.",
        real=FL_REAL, stub=FL_STUB, assumes=FL_ASSUME),
})

OP_REAL = ["go/processor/opera, go/geth_adapter, the state adapter of go/interpreter/geth, go/tosca, and in part of the runs the real go/interpreter/lfvm (with scheduling points inserted and Go's race detector where the variant is concurrent)"]
OP_STUB = ["the world state (go/dst/evmref)", "scripted contracts in place of an interpreter, which revert, fail, report errors or panic, and the real lfvm on generated contracts",
           "a stand-in of go-ethereum's machine (calls, creations, precompiled contracts with arbitrary costs and failures, chain rules), written after the original: the original is not available offline"]
OP_ASSUME = LF_ASSUME + ["the reference processor (go/harness/opera, go/dst/evmref/processor.go) implements Opera's rules", "the stand-in of go-ethereum's machine treats messages, snapshots and gas like the original"]
CHECKS.update({
    "C35": dict(
        **tier([("opera", "tx", 10**6, 9), ("opera", "frames", 10**6, 9), ("opera", "state", 10**6, 7), ("opera", "evm", 10**6, 5)],
               [("opera", "tx", 10**9, 150), ("opera", "frames", 10**9, 150), ("opera", "state", 10**9, 120), ("opera", "evm", 10**9, 100)]),
        rule=FL_RULE + "Everything passes through go-ethereum's machine and both adapters. Non-trivial: nested frames, or a rejected transaction.",
        real=OP_REAL, stub=OP_STUB, assumes=OP_ASSUME),
    "C44": dict(
        **tier([("opera", "adapter", 10**6, 18), ("opera", "adapterevm", 10**6, 7)], [("opera", "adapter", 10**9, 350), ("opera", "adapterevm", 10**9, 150)]),
        rule="A run is one seed: a world and up to three messages in sequence processed by go-ethereum's machine on a database of its own kind, with a Tosca interpreter behind the adapter: trees of frames of scripted contracts (or generated contracts on lfvm) with a seeded fate for each frame. "
        "What every frame is given, every answer, the outcome, the refund counter and the resulting world are compared with an independent reference. Non-trivial: nested frames.",
        real=["go/geth_adapter, go/tosca, and in part of the runs the real go/interpreter/lfvm"], stub=OP_STUB + ["the state database of go-ethereum"], assumes=OP_ASSUME),
    "C45": dict(
        **tier([("operarace", "conc", 10**6, 22)], [("operarace", "conc", 10**9, 450)]),
        rule=GO_SCHED + "Clients process transactions of their own worlds on one processor, over scripted contracts and lfvm; every outcome is compared with the reference of the same transaction alone. Non-trivial: transactions overlapped.",
        real=OP_REAL, stub=OP_STUB + ["goroutine scheduler is the simulator's"], assumes=OP_ASSUME),
})

def others(variant, secs):
    """The machine with other selections of features."""
    return [("evmrs" + f, variant, 10**9 if secs > 50 else 10**6, secs) for f in ("local", "table", "plain")]


RS_REAL = ["all of rust/src with the features of the shipped `performance` build: machine, interpreter, stepping interface, caches, reused stacks and memories, observers (compiled with ThreadSanitizer's instrumentation)",
           "in shorter batches, the same sources with other features: thread-local caches with inline dispatch (evmrslocal), the jump table (evmrstable), and none at all (evmrsplain)"]
RS_STUB = ["host and world state (cpp/ref), with injected callee behaviour: refused, failing, reverting, re-entering, arbitrary result",
           "stand-ins for the crates, which are not available offline: evmc_vm_tosca, ethnum, bnum, lru, sha3, zerocopy, nohash_hasher, mimalloc; std's Mutex, thread-locals, once-cells, allocator and standard output lead to the simulator",
           "thread scheduler, locks and heap are the simulator's"]
RS_ASSUME = ["the stand-ins for the crates behave like the crates", "the build by rustc nightly with -C opt-level=2 represents the shipped build"]
CHECKS.update({
    "C36": dict(
        **tier([("evmrs", "proto", 10**6, 14)] + others("proto", 4), [("evmrs", "proto", 10**9, 400)] + others("proto", 100)),
        rule=EVM_RULE + "Compared with an independent reference machine: outcome, gas, refund, output, order and content of all host effects, final world. Non-trivial: more than three instructions ran.",
        real=RS_REAL, stub=RS_STUB, assumes=RS_ASSUME + ["the reference interpreter of /verif/cpp/ref implements the EVM rules from Istanbul to Cancun correctly"]),
    "C37": dict(
        **tier([("evmrs", "static", 10**6, 14)] + others("static", 4), [("evmrs", "static", 10**9, 300)] + others("static", 100)),
        rule=EVM_RULE + "The host watches every effect and every nested message of static frames, and compares the outcome of transactions with static frames with the reference. Non-trivial: a static frame ran.",
        real=RS_REAL, stub=RS_STUB, assumes=RS_ASSUME),
    "C38": dict(
        **tier([("evmrs", "step", 10**6, 16)] + others("step", 4), [("evmrs", "step", 10**9, 400)] + others("step", 100)),
        rule=EVM_RULE + "An execution is killed after every n instructions (one by one and in random pieces, in nested frames too) and resumed on the same or another machine from the returned state only. Non-trivial: at least three pieces.",
        real=RS_REAL, stub=RS_STUB, assumes=RS_ASSUME),
    "C39": dict(
        **tier([("evmrs", "race", 10**6, 11), ("evmrs", "threads", 10**6, 8), ("evmrslocal", "threads", 10**6, 4)] + others("race", 3), [("evmrs", "race", 10**9, 300), ("evmrs", "threads", 10**9, 200), ("evmrslocal", "threads", 10**9, 100)] + others("race", 80)),
        rule=SCHED_RULE + "Client threads run generated transactions on one machine, with caches of 1 to 4 entries in most runs; every result is compared with the same transaction run alone. Non-trivial: executions overlapped.",
        real=RS_REAL, stub=RS_STUB, assumes=RS_ASSUME),
    "C40": dict(
        **tier([("evmrs", "opts", 10**6, 16)] + others("opts", 4), [("evmrs", "opts", 10**9, 300)] + others("opts", 100)),
        rule=EVM_RULE + "Logging is switched between executions, the log sink fails; results are compared with a machine without logging, and the log with the reference's instruction trace. Non-trivial: the execution had effects.",
        real=RS_REAL, stub=RS_STUB + ["standard output is a simulated sink that can fail"], assumes=RS_ASSUME),
})

EVMC_REAL = ["go/interpreter/evmc, evmzero, evmrs and evmone (all their Go code, with scheduling points inserted and Go's race detector on in the concurrent variants), go/tosca with its registry"]
EVMC_STUB = ["the Go bindings of EVMC and cgo (go/shims/evmc, go/dst/simc): constants, types and the interface between host and machine", "the machines: the reference interpreter of go/dst/evmref on top of the host interface, with injected status codes and answers",
             "the world state (go/dst/evmref)"]
EVMC_ASSUME = LF_ASSUME + ["the stand-in of the bindings hands values over like the real ones, whose source is not in the checkout"]
CHECKS.update({
    "C41": dict(
        **tier([("evmc", "proto", 10**6, 12), ("evmcrace", "conc", 10**6, 12)], [("evmc", "proto", 10**9, 300), ("evmcrace", "conc", 10**9, 300)]),
        rule=GO_SCHED + "Generated transactions with nested calls run through one of the registered interpreters on a machine that knows the world through the bridge only; what reaches the machine and the world, and every result, are compared with the reference, "
        "and in part of the runs frames end with seeded status codes of the machine. Non-trivial: more than three instructions, or executions overlapped.",
        real=EVMC_REAL, stub=EVMC_STUB, assumes=EVMC_ASSUME),
    "C42": dict(
        **tier([("evmcrace", "config", 10**6, 14)], [("evmcrace", "config", 10**9, 200)]),
        rule=GO_SCHED + "Clients create, run and profile the registered configurations in seeded order and at the same time; the simulated machines record their options. Non-trivial: more than three operations.",
        real=EVMC_REAL, stub=EVMC_STUB, assumes=EVMC_ASSUME),
    "C43": dict(
        **tier([("evmc", "step", 10**6, 12), ("evmcrace", "steprace", 10**6, 10)], [("evmc", "step", 10**9, 300), ("evmcrace", "steprace", 10**9, 200)]),
        rule=GO_SCHED + "Generated contracts run on the conformance-test targets of evmzero and evmrs one instruction at a time, each compared with the specification, and in seeded pieces with restarts from exported files, alone and with several goroutines on one target; "
        "in other runs the machine answers with arbitrary states, checked field by field. Non-trivial: more than one piece, or the machine was asked.",
        real=EVMC_REAL + ["go/ct/{st,gen,rlz,spc,common,utils}"], stub=EVMC_STUB, assumes=EVMC_ASSUME),
})
