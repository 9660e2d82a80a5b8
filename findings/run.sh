#!/bin/bash
# usage: run.sh [go test -run regexp]; runs the defect demonstrations against /repo (or $REPO)
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd); repo=${REPO:-/repo}
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
cat > "$ov" <<J
{"Replace": {"$repo/pkg/hnsw/hnsw_test.go": "", "$repo/pkg/document/defects_verif_test.go": "$d/defects_verif_test.go",
 "$repo/pkg/hnsw/defects_verif_test.go": "$d/hnsw_defects_verif_test.go"}}
J
cd "$repo" && go test -overlay "$ov" -vet=off -count=1 -timeout 5m -run "${1:-TestDefect}" ./pkg/document ${2:+./pkg/hnsw}
