#!/bin/bash
# trybug.sh ID...   runs the quick check of each planted change's property on a scratch copy with the change
cd "$(dirname "$0")/.." || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOMEMLIMIT=24GiB VERIF_SEED=1
for id in "$@"; do
	p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
	w=$(mktemp -d /tmp/try-XXXX)
	cp -a /repo "$w/r" && git -C "$w/r" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; rm -rf "$w"; continue; }
	s=$(date +%s)
	mkdir -p "$w/v" && ln -s "$PWD"/{engine,harness,stubs,bin,.cache,known-findings.txt,MANIFEST.json} "$w/v/"
	./bin/symgo -verif "$w/v" -repo "$w/r" -prop "$p" -tier quick >"$w/out" 2>&1
	rc=$?
	echo "$id $p rc=$rc $(($(date +%s) - s))s $(grep -m1 VIOLATION "$w/out" | cut -c1-120) $(python3 - "$w/v/evidence" <<'P'
import glob,json,sys
for f in sorted(glob.glob(sys.argv[1]+'/replays/*.json'))[:1]:
    d=json.load(open(f)); print({k:str(v)[:120] for k,v in d.items() if k in('func','harness','kind','label','detail')})
P
)"
	rm -rf "$w"
done
