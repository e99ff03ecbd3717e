#!/bin/bash
# Runs each planted bug's own check against a scratch copy; prints the missed ones.
set -u
one() {
	id=$1; d=/tmp/seedall/$id; mkdir -p "$d"; cp -a /repo "$d/repo"
	git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || echo "PATCH $id"
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	mkdir -p "$d/v/evidence"; cp /verif/known_findings.json "$d/v/" 2>/dev/null
	/verif/bin/an check -repo "$d/repo" -verif "$d/v" "$p" > "$d/out" 2>&1
	grep -q "^VIOLATION property=$p " "$d/out" || echo "MISSED $id ($p)"
	rm -r "$d"
}
export -f one
mkdir -p /tmp/seedall
ls /verif/seeded | xargs -P 8 -I{} bash -c 'one {}'
rmdir /tmp/seedall
