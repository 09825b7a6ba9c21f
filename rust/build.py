#!/usr/bin/env python3
"""Builds evmrs (the sources of REPO/rust/src, feature set `performance`) as a
static library for the simulator: build.py REPO OUT [plain] [features=SET]

Cargo's registry is not available here, so every dependency is a stand-in from
this directory, and `std` is replaced by `simstd`."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
FEATURES = ["performance", "mimalloc", "unsafe-stack", "custom-evmc", "hash-cache", "code-analysis-cache", "alloc-reuse", "jumptable-dispatch",
            "fn-ptr-conversion-expanded-dispatch", "needs-cache", "needs-jumptable", "needs-fn-ptr-conversion"]
# Other selections of features: the machine's alternative dispatch methods, caches and allocation.
SETS = {
    "performance": FEATURES,
    "local": ["custom-evmc", "unsafe-stack", "hash-cache", "code-analysis-cache", "thread-local-cache", "alloc-reuse", "fn-ptr-conversion-inline-dispatch",
              "needs-cache", "needs-jumptable", "needs-fn-ptr-conversion"],
    "table": ["custom-evmc", "hash-cache", "code-analysis-cache", "jumptable-dispatch", "needs-cache", "needs-jumptable"],
    "plain": [],
}
RUSTC = ["rustc", "+nightly", "--edition", "2021", "-C", "opt-level=2", "-C", "debuginfo=1", "-C", "panic=unwind", "-C", "codegen-units=8", "--cap-lints", "allow", "-C", "relocation-model=static"]

# What is different in the bindings used without the feature custom-evmc: messages own their data, results borrow it.
OWNED = [
    ("pub struct ExecutionMessage<'a> {", "pub struct ExecutionMessage {"),
    ("impl<'a> ExecutionMessage<'a> {", "impl ExecutionMessage {"),
    ("    input: Option<&'a [u8]>,\n    value", "    input: Option<Vec<u8>>,\n    value"),
    ("    code: Option<&'a [u8]>,\n    code_hash: Option<Uint256>,\n}", "    code: Option<Vec<u8>>,\n    code_hash: Option<Uint256>,\n}"),
    ("input: Option<&'a [u8]>, value", "input: Option<&[u8]>, value"),
    ("code: Option<&'a [u8]>, code_hash", "code: Option<&[u8]>, code_hash"),
    ("recipient, sender, input, value, create2_salt, code_address, code, code_hash }",
     "recipient, sender, input: input.map(|x| x.to_vec()), value, create2_salt, code_address, code: code.map(|x| x.to_vec()), code_hash }"),
    ("pub fn input(&self) -> Option<&'a [u8]> {\n        self.input", "pub fn input(&self) -> Option<&Vec<u8>> {\n        self.input.as_ref()"),
    ("pub fn code(&self) -> Option<&'a [u8]> {\n        self.code", "pub fn code(&self) -> Option<&Vec<u8>> {\n        self.code.as_ref()"),
    ("impl<'a> From<&'a evmc_message> for ExecutionMessage<'a> {\n    fn from(m: &'a evmc_message)", "impl From<&evmc_message> for ExecutionMessage {\n    fn from(m: &evmc_message)"),
    ("unsafe { slice(m.input_data, m.input_size) },", "unsafe { slice(m.input_data, m.input_size) }.map(|x| x.to_vec()),"),
    ("unsafe { slice(m.code, m.code_size) },", "unsafe { slice(m.code, m.code_size) }.map(|x| x.to_vec()),"),
    ("m.input.map_or(std::ptr::null(), <[u8]>::as_ptr)", "m.input.as_deref().map_or(std::ptr::null(), <[u8]>::as_ptr)"),
    ("m.input.map_or(0, <[u8]>::len)", "m.input.as_deref().map_or(0, <[u8]>::len)"),
    ("m.code.map_or(std::ptr::null(), <[u8]>::as_ptr)", "m.code.as_deref().map_or(std::ptr::null(), <[u8]>::as_ptr)"),
    ("m.code.map_or(0, <[u8]>::len)", "m.code.as_deref().map_or(0, <[u8]>::len)"),
    ("gas_refund: i64, output: Option<Box<[u8]>>)", "gas_refund: i64, output: Option<&[u8]>)"),
    ("gas_left, gas_refund, output, create_address: None }", "gas_left, gas_refund, output: output.map(|x| x.to_vec()), create_address: None }"),
    ("pub fn output(&self) -> Option<&[u8]> {\n        self.output.as_deref()", "pub fn output(&self) -> Option<&Vec<u8>> {\n        self.output.as_ref()"),
    ("    output: Option<Box<[u8]>>,\n    create_address", "    output: Option<Vec<u8>>,\n    create_address"),
    ("pub output: Option<Box<[u8]>>,", "pub output: Option<Vec<u8>>,"),
    ("gas_refund: i64, output: Option<Box<[u8]>>,", "gas_refund: i64, output: Option<Vec<u8>>,"),
    ("give(v.output)", "give(v.output.map(Vec::into_boxed_slice))"),
    ("r.output_size) }.map(Box::from)", "r.output_size) }.map(|x| x.to_vec())"),
]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise SystemExit(" ".join(cmd) + "\n" + r.stdout[-6000:])


def build(repo, out, tsan=True, features="performance"):
    os.makedirs(out, exist_ok=True)
    san = ["-Zsanitizer=thread", "-Cunsafe-allow-abi-mismatch=sanitizer"] if tsan else []
    src = os.path.join(out, "src")
    shutil.rmtree(src, ignore_errors=True)
    for d, _, files in os.walk(os.path.join(repo, "rust/src")):
        to = os.path.join(src, os.path.relpath(d, os.path.join(repo, "rust/src")))
        os.makedirs(to, exist_ok=True)
        for f in files:
            text = open(os.path.join(d, f)).read()
            if f.endswith(".rs"):
                text = re.sub(r"(?<![\w:])(::)?std::", "simstd::", text)
                if os.path.samefile(d, os.path.join(repo, "rust/src")) and f == "lib.rs":
                    text = re.sub(r"\A((?:\s*(?://[^\n]*|#!\[[^\n]*\]))*\s*\n)", r"\1#[macro_use] extern crate simstd;\n", text, count=1)
            open(os.path.join(to, f), "w").write(text)

    def crate(name, path, flags=()):
        run(RUSTC + list(flags) + ["--crate-type", "rlib", "--crate-name", name, "--out-dir", out, path])
        return ["--extern", "%s=%s" % (name, os.path.join(out, "lib%s.rlib" % name))]

    bindings = open(os.path.join(HERE, "evmc_vm.rs")).read()
    for old, new in OWNED:
        if old not in bindings:
            raise SystemExit("evmc_vm.rs does not contain " + old)
        bindings = bindings.replace(old, new)
    open(os.path.join(out, "evmc_vm_owned.rs"), "w").write(bindings)
    jobs = [("simstd", os.path.join(HERE, "simstd.rs"), san), ("lru", os.path.join(HERE, "lru.rs"), san)]
    jobs += [(n, os.path.join(HERE, n + ".rs"), []) for n in ("zerocopy", "nohash_hasher", "mimalloc", "sha3", "bnum", "ethnum")]
    jobs += [("evmc_vm_tosca", os.path.join(out, "evmc_vm_owned.rs"), []), ("evmc_vm_tosca_refactor", os.path.join(HERE, "evmc_vm.rs"), [])]
    jobs += [("llvm_profile_wrappers", os.path.join(repo, "rust/llvm-profile-wrappers/src/lib.rs"), [])]
    ext = []
    with cf.ThreadPoolExecutor(8) as ex:
        wrap = ex.submit(run, ["gcc", "-O1", "-c", os.path.join(repo, "rust/llvm-profile-wrappers/src/llvm_profile_wrappers.c"), "-o", os.path.join(out, "llvm_profile_wrappers.o")])
        for f in [ex.submit(crate, *j) for j in jobs]:
            ext += f.result()
        wrap.result()
    cfgs = []
    for f in SETS[features]:
        cfgs += ["--cfg", 'feature="%s"' % f]
    lib = os.path.join(out, "libevmrs.a")
    run(RUSTC + san + cfgs + ext + ["-L", out, "--crate-type", "staticlib", "--crate-name", "evmrs", "-o", lib, os.path.join(src, "lib.rs")])
    return [lib, os.path.join(out, "llvm_profile_wrappers.o")]


if __name__ == "__main__":
    sets = [a[9:] for a in sys.argv[3:] if a.startswith("features=")]
    print(" ".join(build(sys.argv[1], sys.argv[2], "plain" not in sys.argv[3:], *sets)))
