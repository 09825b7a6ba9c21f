#!/bin/bash
# Builds the Go packages of the working tree with stand-ins for the third-party
# modules (not available offline) and runs the test files found in at/.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
out="$(mktemp -d)"
trap 'chmod -R u+w "$out"; rm -r -- "$out"' EXIT
(cd "$repo" && find go -name '*.go' ! -name '*_test.go' ! -name '*_mock*.go' -print0 -o -name '*.h' -print0 -o -path 'go/*' -name '*.c' -print0 -o -path 'go/interpreter/lfvm/*' -name '*.cc' -print0 | tar cf - --null -T -) | tar xf - -C "$out"
for p in $(cat "$here/replaced" 2>/dev/null); do
  find "$out/$p" -maxdepth 1 -type f -delete
done
(cd "$here/at" && tar cf - .) | tar xf - -C "$out"
{
  echo "module github.com/Fantom-foundation/Tosca"
  echo
  echo "go 1.22.0"
  while read -r mod version dir; do
    echo "require $mod $version"
    echo "replace $mod => $here/shims/$dir"
  done < "$here/shims/modules"
} > "$out/go.mod"
if [ -f "$here/prepare" ]; then . "$here/prepare"; fi
export GOCACHE="$out/cache" GOPATH="$out/path" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 HOME="$out"
cd "$out"
for p in $(cat "$here/packages"); do
  timeout 240 go test $(cat "$here/flags" 2>/dev/null) -vet=off -count=1 -run Demo "./$p"
done
