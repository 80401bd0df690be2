#!/bin/bash
# Trial build of the instrumenter and the harness from the committed files.
HERE="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${VH_REPO:-/repo}"
BUILD="$HERE/.build"
. "$HERE/tools/build.sh"
build_instr || exit 1
build_variant plain || exit 1
exit 0
