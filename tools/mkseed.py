# usage: from mkseed import seed
import subprocess, os, json
REPO = os.environ.get("SIM_REPO", "/repo")
def seed(id, prop, needs, breaks, edits, files, build="g++"):
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    try:
        for f,old,new in edits:
            p=REPO+"/"+f; s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,"w").write(s.replace(old,new))
        diff=subprocess.check_output(["git","-C",REPO,"diff"],text=True)
    finally:
        subprocess.check_call(["git","-C",REPO,"checkout","-q","--","."])
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    for n,c in files.items():
        os.makedirs(os.path.dirname(d+"/"+n),exist_ok=True)
        open(d+"/"+n,"w").write(c)


def evmzero_files(demo, san="-fsanitize=thread"):
    """Files of a demonstration that runs the whole evmzero machine."""
    files = {"demo.cc": '#include "mini.h"\n' + demo, "san": san + "\n"}
    base = "/verif/tools/demo/evmzero/"
    for n in ("mini.h", "demo.sh"):
        files[n] = open(base + n).read()
    for n in ("evmc/evmc.h", "evmc/evmc.hpp", "evmc/utils.h", "ethash/keccak.hpp", "keccak.cc", "intxops.cc", "intx/intx.hpp", "build_info.h"):
        files["shim/" + n] = open("/verif/cpp/shim/" + n).read()
    return files


def go_files(pkg, demo, race=False, extra={}, shims=()):
    """Files of a demonstration that is a Go test in a package of the repository."""
    files = {"demo.sh": open("/verif/tools/demo/go/demo.sh").read(), "packages": pkg + "\n", "at/" + pkg + "/zz_demo_test.go": demo}
    if race:
        files["flags"] = "-race\n"
    base = "/verif/go/shims"
    mods = [("github.com/holiman/uint256", "v0.0.0", "uint256"), ("pgregory.net/rand", "v0.0.0", "pgrand"), ("github.com/hashicorp/golang-lru/v2", "v2.0.0", "lru/v2"),
            ("golang.org/x/exp", "v0.0.0", "exp"), ("golang.org/x/crypto", "v0.0.0", "xcrypto"), ("github.com/dsnet/golib/unitconv", "v0.0.0", "unitconv")] + list(shims)
    files["shims/modules"] = "".join(" ".join(m) + "\n" for m in mods)
    for _, _, d in mods:
        for root, _, names in os.walk(os.path.join(base, d)):
            for n in names:
                p = os.path.join(root, n)
                files["shims/" + os.path.relpath(p, base)] = open(p).read()
    files.update(extra)
    return files


CLI = [("github.com/urfave/cli/v2", "v2.0.0", "cli")]


def driver_files(demo, race=False):
    """Files of a demonstration inside the driver's package, with programmable EVMs."""
    extra = {"replaced": "".join(d + "\n" for d in ("go/interpreter/geth", "go/interpreter/evmzero", "go/interpreter/evmrs", "go/lib/cpp", "go/lib/rust"))}
    for d, to in (("geth", "go/interpreter/geth"), ("evmzero", "go/interpreter/evmzero"), ("evmrs", "go/interpreter/evmrs"), ("libcpp", "go/lib/cpp"), ("librust", "go/lib/rust")):
        for n in os.listdir("/verif/go/stubs/" + d):
            extra["at/%s/%s" % (to, n)] = open("/verif/go/stubs/%s/%s" % (d, n)).read()
    return go_files("go/ct/driver", demo, race=race, extra=extra, shims=CLI)


def evmrs_files(demo, mode="plain"):
    """Files of a demonstration that runs the whole evmrs machine ("plain" or "tsan")."""
    files = {"demo.cc": '#include "mini.h"\n' + demo, "mode": mode + "\n"}
    for n in ("mini.h", "demo.sh"):
        files[n] = open("/verif/tools/demo/evmrs/" + n).read()
    files["shim/evmc/evmc.h"] = open("/verif/cpp/shim/evmc/evmc.h").read()
    for n in os.listdir("/verif/rust"):
        if os.path.isfile("/verif/rust/" + n):
            files["rust/" + n] = open("/verif/rust/" + n).read()
    return files


# Calls of evmzero's C functions reach Go code in the demonstration.
EVMC_PROBE = """package %s

/*
extern void* demo_dumped();
*/
import "C"

import "unsafe"

// Dumped is the machine whose profile was dumped last.
func Dumped() unsafe.Pointer { return C.demo_dumped() }
"""


def evmc_files(pkg, demo, race=False, probe=False):
    """Files of a demonstration in a package behind the EVMC bridge."""
    extra = {"prepare": r"""
export CGO_CFLAGS="-I$here/include -w"
mkdir -p "$out/cpp/build/vm/evmzero"
export CGO_LDFLAGS="-L$out/cpp/build/vm/evmzero"
printf 'static void* d; void* demo_dumped() { return d; }\nvoid evmzero_dump_profile(void* vm) { d = vm; }\nvoid evmzero_reset_profiler(void* vm) { (void)vm; }\n' > "$out/lib.c"
gcc -shared -fPIC -o "$out/cpp/build/vm/evmzero/libevmzero.so" "$out/lib.c"
rm "$out/lib.c"
export LD_LIBRARY_PATH="$out/cpp/build/vm/evmzero"
""", "include/evmc/evmc.h": open("/verif/cpp/shim/evmc/evmc.h").read()}
    if probe:
        extra["at/" + pkg + "/zz_probe.go"] = EVMC_PROBE % os.path.basename(pkg)
    files = go_files(pkg, demo, race=race, extra=extra, shims=[("github.com/ethereum/evmc/v11", "v11.0.0", "evmc")])
    k = "shims/evmc/bindings/go/evmc/evmc.go"
    s = files[k].replace("GetHandle() Machine { return vm.M }", "GetHandle() unsafe.Pointer { return unsafe.Pointer(vm) }").replace('import "fmt"', 'import (\n\t"fmt"\n\t"unsafe"\n)')
    assert "unsafe.Pointer(vm)" in s
    files[k] = s
    return files
