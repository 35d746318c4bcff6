#!/bin/bash
# Runs the defect demonstrations against /repo (documentation; not a check).
. /opt/vp/env.sh
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
echo '{"Replace":{"/repo/tests/zz_defects_test.go":"'$(dirname "$(readlink -f "$0")")'/defects_test.go"}}' > $D/o.json
cd /repo && go test -overlay $D/o.json ./tests -run "${1:-TestF}" -count=1 2>&1 | grep -v '^20'
