#!/bin/bash
# Template of a planted bug's demo: runs demo.go.txt as a test of package PKG.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cp "$D/demo.go.txt" "$T/zz_demo_test.go"
echo "{\"Replace\":{\"/repo/PKG/zz_demo_test.go\":\"$T/zz_demo_test.go\"}}" > "$T/o.json"
cd /repo && go test -count=1 -timeout 120s -overlay "$T/o.json" -run '^TestDemo$' ./PKG
