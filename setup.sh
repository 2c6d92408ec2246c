#!/bin/sh
# Nothing is prepared ahead of time: every check builds what it needs from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence build
for t in clang++ python3; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
python3 - <<'P'
import json
m = json.load(open("MANIFEST.json"))
print("ok:", len(m["checks"]), "checks")
P
