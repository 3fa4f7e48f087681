#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker from /repo's working tree
# and runs the check of one property.
set -u
root=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local TZ=UTC VERIF_ROOT=$root
work=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
export MC_WORK=$work
(cd "$root/mc" && go test -c -o "$work/mc" .) || { echo "the checker does not build" >&2; exit 2; }
"$work/mc" check "$id" "$tier"
