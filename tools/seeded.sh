#!/bin/bash
# tools/seeded.sh [ID...]: runs the check of each planted bug's property with the bug applied to /repo
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo isn't clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${*:-$(ls seeded)}; do
	id=${id%%:*}
	p=${PROP:-$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")}
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
	for q in $p; do
		s=$(date +%s)
		out=$(bash check.sh "$q" ${TIER:-quick} 2>&1); rc=$?
		echo "$id $q exit $rc, $(($(date +%s) - s)) s: $(grep -m1 VIOLATION <<<"$out" | cut -c1-150)"
		[ -n "$SHOW" ] && grep -A3 -m"$SHOW" VIOLATION <<<"$out" | cut -c1-400
	done
	git -C /repo checkout -q -- .
done
