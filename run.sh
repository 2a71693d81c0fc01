#!/bin/bash
# run.sh <property> [quick|thorough|--flags...]: build the harness from /repo's working tree, run one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; shift
case "${1:-}" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
. "$here/env.sh"
bin="$(mktemp -d "${TMPDIR:-/tmp}/verif-bin-XXXXXX")" || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/harness" && go build -o "$bin/vh" ./cmd/vh) >"$bin/build.log" 2>&1; then
  echo "ERROR: the harness does not build against /repo:"; head -50 "$bin/build.log"; exit 2
fi
VERIF_BIN="$bin" "$bin/vh" -prop "$prop" -verif "$here" "$@"
rc=$?
exit $rc
