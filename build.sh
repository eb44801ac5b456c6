# sourced: build_sim RACE DIR -> BIN, RBIN, SITES. Rebuilds from /repo's working tree.
REPO=${REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
build_sim() {
  local B="$V/.build" S key
  mkdir -p "$B" || return 1
  (
    flock 9 || exit 1
    cd "$V/sim" || exit 1
    go build -o "$B/instrument" ./cmd/instrument || exit 1
    S="$B/src"
    rm -rf "$B/src.new"; mkdir -p "$B/src.new" || exit 1
    "$B/instrument" -repo "$REPO" -out "$B/src.new" >/dev/null || exit 1
    rm -rf "$S"; mv "$B/src.new" "$S" || exit 1
    sed -i "s#$B/src.new/#$B/src/#g" "$S/overlay.json"
    # the rewritten code may use generic helpers, which the module's language version lacks
    L=$(cat "$S/lang"); GC=()
    [ -n "$L" ] && GC=("-gcflags=github.com/hzw456/go-geo/...=-lang=$L")
    go build "${GC[@]}" -overlay "$S/overlay.json" -o "$2/sim" ./harness || exit 1
    cp "$S/sites.json" "$2/sites.json" || exit 1
    if [ "$1" = 1 ]; then
      CGO_ENABLED=1 go build -race "${GC[@]}" -overlay "$S/overlay.json" -o "$2/sim.race" ./harness || exit 1
    fi
  ) 9>"$B/lock" || return 1
  BIN="$2/sim"; RBIN="$2/sim.race"; SITES="$2/sites.json"
}
