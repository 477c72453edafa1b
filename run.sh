#!/bin/bash
# run.sh check ID | replay FILE | list | manifest : builds the harness against /repo's working tree and runs it.
set -u
export PATH=/usr/local/go/bin:$PATH
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
out="$ROOT/.build/${2:-all}"
case "$out" in */replays/*|*.json) out="$ROOT/.build/replay";; esac
mkdir -p "$ROOT/.build"
if [ "${1:-}" = replay ]; then set -- "$1" "$(realpath "$2")"; fi
cd "$ROOT/harness" || exit 2
# C01 runs under the race detector, which needs cgo; without it, it still compares results
race=
if [ "${2:-}" = C01 ] || { [ "${1:-}" = replay ] && grep -q '"property": "C01"' "$2" 2>/dev/null; }; then race=1; fi
if [ -n "$race" ] && CGO_ENABLED=1 go build -race -o "$out.bin" . ; then
  export GORACE="exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
elif ! go build -o "$out.bin" . ; then
  echo "harness: build failed" >&2
  exit 2
fi
# thorough checks also search with the coverage-guided engine of the Go tool chain
if [ "${1:-}" = check ] && [ "${3:-${VERIF_TIER:-}}" = thorough ] && [ -z "$race" ] &&
  go test -c -fuzz=FuzzProp -o "$out.fuzz" . >&2; then
  export VERIF_FUZZ_BIN="$out.fuzz"
fi
exec "$out.bin" "$@"
