#!/bin/bash
# Builds the Rust machine from the working tree with stand-ins for the crates
# and runs demo.cc.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
out="$(mktemp -d)"
trap 'rm -r -- "$out"' EXIT
mode="$(cat "$here/mode")"
san=""
[ "$mode" = tsan ] && san="-fsanitize=thread"
python3 "$here/rust/build.py" "$repo" "$out/rust" $mode >"$out/log" 2>&1 || { cat "$out/log"; exit 1; }
clang++ -std=c++20 -O1 -w $san -I"$here/shim" "$here/demo.cc" "$out/rust/libevmrs.a" "$out/rust/llvm_profile_wrappers.o" -no-pie -ldl -lm -lpthread -o "$out/demo"
run=""; setarch -R true 2>/dev/null && run="setarch -R"
timeout 120 $run "$out/demo"
