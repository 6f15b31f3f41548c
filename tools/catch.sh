#!/bin/bash
# catch.sh [ID...]: which seeded bugs does the check of their property catch?
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  python3 tools/trypatch.py seeded/$d/patch.diff $p
done
