#!/bin/bash
# runseeds.sh [id ...]: applies each planted bug to /repo, runs its property's
# quick check, and undoes it.
cd "$(dirname "$0")/.." || exit 1
ids=("$@")
[ $# -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	out=$(./check.sh "$p" quick 2>&1); rc=$?
	git -C /repo checkout -q -- .
	git -C /repo clean -fdq
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id: caught by $p: $(grep -A2 ^VIOLATION <<<"$out" | sed -n 2,3p | cut -c1-200 | tr '\n' ' ')"
	else echo "$id: MISSED by $p (exit $rc): $(tail -1 <<<"$out" | cut -c1-300)"; fi
done
