#!/bin/bash
# Self-test of the instrumenter and of the simulated packages: a program which uses many constructs of the
# language gives the same result when it runs natively and under 300 simulated schedules.
HERE="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp -a "${VERIF_REPO:-/repo}" "$T/r"
cp "$HERE/torture.go.txt" "$T/r/torture.go"
mkdir -p "$T/r/verifsim/tt"
cp "$HERE/main.go.txt" "$T/r/verifsim/tt/main.go"
cat > "$T/r/zz_test.go" <<'X'
package libasciidoc_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/bytesparadise/libasciidoc"
)

func TestTorture(t *testing.T) { fmt.Println(strings.Join(libasciidoc.Torture(), "\n")) }
X
(cd "$T/r" && CGO_ENABLED=0 go test -v -vet=off -count=1 -run '^TestTorture$' . | grep -v '^ok\|^PASS\|^=== RUN\|^--- ') > "$T/native"
VERIF_REPO="$T/r" bash "$HERE/../../build.sh" "$T/b" || exit 2
(cd "$T/r" && CGO_ENABLED=0 go build -overlay "$T/b/ov/overlay.json" -o "$T/tt" ./verifsim/tt && "$T/tt") > "$T/sim" || exit 2
diff "$T/native" "$T/sim" || exit 1
echo "the same result natively and in 300 simulated schedules ($(wc -l < "$T/native") lines)"
