#!/bin/bash
# Builds the virtual machine from the working tree with stand-ins for the
# third-party headers and runs demo.cc.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
out="$(mktemp -d)"
trap 'rm -r -- "$out"' EXIT
SAN="-fsanitize=thread"
[ -f "$here/san" ] && SAN="$(cat "$here/san")"
for f in evmzero interpreter memory opcodes stack; do
  clang++ -std=c++20 -O1 -w $SAN -I"$repo/cpp" -I"$here/shim" -c "$repo/cpp/vm/evmzero/$f.cc" -o "$out/$f.o" &
done
clang++ -std=c++20 -O1 -w -c "$here/shim/keccak.cc" -o "$out/keccak.o" &
clang++ -std=c++20 -O1 -w -c "$here/shim/intxops.cc" -o "$out/intxops.o" &
clang++ -std=c++20 -O1 -w $SAN -I"$repo/cpp" -I"$here/shim" -c "$here/demo.cc" -o "$out/demo.o" &
wait
clang++ $SAN "$out"/*.o -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash -lpthread -o "$out/demo"
run=""; setarch -R true 2>/dev/null && run="setarch -R"
timeout 120 $run "$out/demo"
