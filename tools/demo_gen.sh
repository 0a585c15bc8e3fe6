#!/bin/bash
# Template of a planted bug's demo: generates code for doc.yaml and runs main.go.txt with it.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cd /repo && go build -o "$T/gen" ./cmd/asyncapi-codegen || exit 3
mkdir "$T/m"
sed 's#^module .*#module demo#' go.mod > "$T/m/go.mod"
printf 'require github.com/lerenn/asyncapi-codegen v0.0.0\nreplace github.com/lerenn/asyncapi-codegen => /repo\n' >> "$T/m/go.mod"
cp go.sum "$T/m/"
cp "$D"/*.yaml "$T/m/"
cp "$D/main.go.txt" "$T/m/main.go"
cd "$T/m" && "$T/gen" -i doc.yaml -p main -o gen.go ARGS && go build -mod=mod -o demo . && timeout 60 ./demo
