#!/bin/bash
# run.sh PROPERTY [--replay FILE SUBPROPERTY]
# Builds the harness against /repo's working tree in a scratch directory and runs one check.
set -u
PROP="$1"; shift
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
. "$VERIF_ROOT/env.sh"
if [ "${1:-}" = "--replay" ]; then export VERIF_FAILFILE="$(realpath "$2")" VERIF_ONLY="${3:-}"; fi
SCRATCH="$(mktemp -d /tmp/verif-XXXXXX)" || exit 2
export SCRATCH
cleanup() { chmod -R u+w "$SCRATCH" 2>/dev/null; rm -rf "$SCRATCH"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
mkdir -p "$SCRATCH/work" "$SCRATCH/tmp"
export TMPDIR="$SCRATCH/tmp"
cp -r "$VERIF_ROOT/harness" "$SCRATCH/harness" || exit 2
cp /repo/go.sum "$SCRATCH/harness/go.sum" && cat "$VERIF_ROOT/harness/extra.sum" >> "$SCRATCH/harness/go.sum"
cd "$SCRATCH/harness" || exit 2
go build -o "$SCRATCH/check" ./cmd/check > "$SCRATCH/build.log" 2>&1 || { cat "$SCRATCH/build.log"; echo "harness build failed"; exit 2; }
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
cd "$SCRATCH/work" || exit 2
"$SCRATCH/check" "$PROP"
rc=$?
exit $rc
