#!/bin/bash
# tryseed.sh ID...: confirm planted bugs in scratch copies of /repo and run the checks on them.
cd "$(dirname "$0")/.." || exit 2
v=$PWD
./build.sh || exit 2
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
for id in "$@"; do
  s=$v/seeded/$id
  w=/tmp/seed_$id
  mkdir -p "$w" && cp -a /repo "$w/repo" && cd "$w/repo" || exit 2
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  r="$id $prop:"
  bash "$s/demo.sh" >"$w/demo0" 2>&1 && r="$r demo-clean=ok" || r="$r demo-clean=FAIL"
  git apply "$s/patch.diff" || r="$r apply=FAIL"
  go build ./... >"$w/build" 2>&1 && r="$r build=ok" || r="$r build=FAIL"
  go test -json -vet=off -count=1 ./... >"$w/test.log" 2>/dev/null
  n=$(python3 - "$w/test.log" <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
print('ok' if st<=ok else 'FAIL:'+','.join(x.split('/')[-1] for x in st-ok))
P
)
  r="$r tests=$n"
  timeout 300 bash "$s/demo.sh" >"$w/demo1" 2>&1 && r="$r demo-bug=PASSES" || r="$r demo-bug=fails"
  cd "$v" || exit 2
  for c in $prop ${EXTRA:-}; do
    BIPS_REPO=$w/repo BIPS_OUT=$w/ev ./check.sh "$c" >"$w/check.$c" 2>&1; rc=$?
    grep -q "^VIOLATION property=$c " "$w/check.$c" && [ $rc = 1 ] && r="$r $c=caught" || r="$r $c=MISSED($rc)"
  done
  echo "$r"
  rm -rf "/tmp/seed_$id/repo"
done
