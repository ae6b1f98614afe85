#!/bin/bash
# Usage: run.sh check PROP [tier]   build the harness from /repo's working tree and run one property's check
#        run.sh replay FILE         re-run one saved failing case
#        run.sh build OUT           only build
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then export PATH="/opt/veriftools/go1.27.3/bin:$PATH"; fi
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
unset GOROOT
scratch="$(mktemp -d "${TMPDIR:-/tmp}/verif-harness.XXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
# The module file is copied so that the committed one is never rewritten.
mkdir -p "$scratch/mod" && cp "$here/go.mod" "$here/go.sum" "$scratch/mod/" || exit 2
out="$scratch/harness"
case "${1:-}" in build) out="$2";; esac
race=()
if [ "${1:-}" = check ] && [ "${2:-}" = P18 ]; then race=(-race); fi
if ! (cd "$here" && go build "${race[@]}" -modfile="$scratch/mod/go.mod" -o "$out" . ) >"$scratch/build.log" 2>&1; then
  echo "harness: build failed" >&2; cat "$scratch/build.log" >&2; exit 2
fi
[ -s "$scratch/build.log" ] && cat "$scratch/build.log" >&2
case "${1:-}" in
  build) exit 0;;
  check)
    "$out" check -prop "$2" -tier "${3:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -scratch "$scratch" -verif "$(dirname "$here")"
    exit $?;;
  replay) "$out" replay -scratch "$scratch" "$2"; exit $?;;
  *) echo "usage: run.sh check PROP [tier] | replay FILE | build OUT" >&2; exit 2;;
esac
