#!/bin/bash
# builds the simulator and the instrumented code of /repo into a scratch folder: build.sh OUT [race]
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
REPO="${VERIF_REPO:-/repo}"
mkdir -p "$OUT"
(cd "$HERE/tools/instrument" && CGO_ENABLED=0 go build -o "$OUT/instrument" .)
"$OUT/instrument" -repo "$REPO" -sim "$HERE/sim" -out "$OUT/ov"
if [ "$2" = race ]; then
  # the pools of the standard library (fmt's buffers, say) order the accesses of the goroutines which
  # take and give back the same object, and hide races: a sync.Pool may drop whatever it is given
  POOL="$(go env GOROOT)/src/sync/pool.go"
  sed -e 's/^func (p \*Pool) Put(x any) {$/&\n\tif true {\n\t\treturn\n\t}/' \
      -e 's/^func (p \*Pool) Get() any {$/&\n\tif true {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}/' "$POOL" > "$OUT/ov/pool.go"
  [ "$(grep -c 'if true {' "$OUT/ov/pool.go")" = 2 ] || { echo "sync/pool.go not as expected" >&2; exit 1; }
  sed -i "s|^ \"Replace\": {|&\n  \"$POOL\": \"$OUT/ov/pool.go\",|" "$OUT/ov/overlay.json"
  (cd "$REPO" && CGO_ENABLED=1 go build -race -overlay "$OUT/ov/overlay.json" -o "$OUT/h" ./verifsim/harness)
else
  (cd "$REPO" && CGO_ENABLED=0 go build -overlay "$OUT/ov/overlay.json" -o "$OUT/h" ./verifsim/harness)
fi
