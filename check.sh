#!/bin/bash
# check.sh <property-id> [--replay FILE]: builds an instrumented copy of /repo's
# working tree, runs the check of one property against it, writes evidence/<id>.json.
set -u
ID="$1"; shift
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VH_REPO:-/repo}"
BUILD="${VH_BUILD:-$HERE/.build}"
export VH_CHECK="$ID" VH_MODE=coordinator
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export VH_EVIDENCE="$HERE/evidence/$ID.json" VH_KNOWN="$HERE/known_findings.txt" VH_REPLAYS="$HERE/replays"
export VH_REPO_DIR="$REPO"
[ "${1:-}" = "--replay" ] && export VH_REPLAY="$2"
# wall-clock budget of the exploration (after the build); running out of it is not an alarm
if [ -z "${VH_BUDGET:-}" ]; then
  if [ "$VERIF_TIER" = thorough ]; then export VH_BUDGET=600; else export VH_BUDGET=120; fi
fi
case "$ID" in
  C01) VARIANTS="plain sched" ;;
  C04|C23|C24) VARIANTS="plain sched race" ;;
  C06) VARIANTS="plain sched" ;;
  C03|C05) VARIANTS="sched race" ;;
  C02) VARIANTS="sched" ;;
  *) VARIANTS="plain" ;;
esac
. "$HERE/tools/build.sh"
for v in $VARIANTS; do
  build_variant "$v" || { echo "build of variant $v failed"; exit 2; }
  export "VH_BIN_$v=$BUILD/$v/harness.test"
done
VH_TMP="$(mktemp -d "$BUILD/run-$ID-XXXXXX")" || exit 2
export VH_TMP
trap 'rm -rf -- "$VH_TMP"' EXIT
set -- $VARIANTS
"$BUILD/$1/harness.test"
exit $?
