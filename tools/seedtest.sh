#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy of /repo.
set -u
id=$1; S=/verif/seeded/$id
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/demo"
cp -r "$S"/. "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
cd "$W/repo"
timeout 300 bash "$W/demo/demo.sh" >"$W/o1" 2>&1; r1=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/o2" 2>&1; r2=$?
echo "$id: demo clean=$r1 patched=$r2"
[ $r1 = 0 ] || tail -20 "$W/o1"
tail -12 "$W/o2" | cut -c1-200
if [ "${2:-}" != notest ]; then
  sed "s#/repo#$W/repo#g" /opt/vp/test.sh > "$W/test.sh"
  bash "$W/test.sh" "$W/out.json" > "$W/tlog" 2>&1
  python3 - "$W/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=o.get('passed') or o.get('pass') or []
print('missing:',[x for x in s if x not in p] , 'passed',len(p))
P
fi
