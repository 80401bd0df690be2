# sourced by check.sh and setup.sh: build_variant plain|sched|race
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod" GOWORK=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$BUILD"

build_instr() {
  ( cd "$HERE/tools/instr" && go build -o "$BUILD/instr" . )
}

# instrumented copy of the repository for a variant, at instrumentation level $2
make_copy() {
  local variant="$1" level="$2" kind="$1"
  [ "$variant" = race ] && kind=sched
  "$BUILD/instr" -src "$REPO" -dst "$BUILD/$variant/repo" -shim "$HERE/shim" -variant "$kind" -level "$level"
}

build_variant() {
  local variant="$1" race="" d="$BUILD/$1" level
  [ "$variant" = race ] && race="-race"
  [ -x "$BUILD/instr" ] && [ -n "${VH_KEEP_INSTR:-}" ] || build_instr || return 1
  mkdir -p "$d/h"
  rm -f "$d"/h/*.go "$d/harness.test"
  cp "$HERE"/harness/*.go "$d/h/" || return 1
  {
    echo "module verifharness"; echo; echo "go 1.27"; echo
    echo "require github.com/mmadfox/go-gpsgen v0.0.0"
    echo "replace github.com/mmadfox/go-gpsgen => ../repo"
    # the repository's own requirements, pinned
    sed -n '/^require (/,/^)/p; /^require [^(]/p' "$REPO/go.mod"
  } > "$d/h/go.mod"
  cp "$REPO/go.sum" "$d/h/go.sum"
  for level in 2 1; do
    make_copy "$variant" "$level" || return 1
    if ( cd "$d/h" && go test -c $race -vet=off -o "$d/harness.test" . ) 2> "$d/build.log"; then
      return 0
    fi
  done
  cat "$d/build.log"
  return 1
}
