#!/bin/bash
# seedtry.sh ID [PROP...]: checks a planted bug in a scratch copy: applies,
# builds, passes the stable tests, demo tells the trees apart; then runs the
# quick checks of its property (or of those given) against the copy.
ID="$1"; shift
S=/verif/seeded/$ID
PROPS="$*"; [ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedtry-XXXXXX)
trap 'find "$W" -delete' EXIT
cp -a /repo "$W/repo"
cd "$W/repo"
mkdir "$W/demo"; cp -r "$S"/. "$W/demo"; find "$W/demo" -name '*.diff' -delete
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
if [ -z "$NODEMO" ]; then
bash "$W/demo/demo.sh" > "$W/d0" 2>&1; r0=$?
fi
git apply "$S/patch.diff" || { echo "$ID: does not apply"; exit 1; }
if [ -z "$NODEMO" ]; then
go build ./... || { echo "$ID: does not build"; exit 1; }
go test -json ./... > "$W/t" 2>/dev/null
F=$(python3 - "$W/t" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']); ok=set(); bad=set()
for l in open(sys.argv[1]):
    d=json.loads(l)
    if d.get('Test') and d['Action'] in('pass','fail'):
        (ok if d['Action']=='pass' else bad).add(d['Package']+'/'+d['Test']); (ok if d['Action']=='pass' else bad).add(d['Package']+'::'+d['Test'])
print(len([x for x in bad if x in st]), sorted(x for x in bad if x in st)[:3], sum(1 for x in ok if x in st), '/',len(st), sorted(bad)[:6])
P
)
bash "$W/demo/demo.sh" > "$W/d1" 2>&1; r1=$?
echo "$ID: stable tests failing: $F; demo unpatched $r0 (want 0), patched $r1 (want not 0)"
[ $r0 != 0 ] && tail -15 "$W/d0"
[ $r1 = 0 ] && tail -5 "$W/d1"
[ -n "$SHOWDEMO" ] && tail -15 "$W/d1"
fi
for P in $PROPS; do
  t0=$(date +%s)
  VERIF_REPO="$W/repo" VERIF_BUILD="$W/build" timeout 900 /verif/check.sh $P > "$W/c" 2>"$W/ce"; r=$?
  echo "$ID: check $P exit $r, $(($(date +%s)-t0)) s: $(grep -v '^$' "$W/c" | tail -${LINES_:-2} | cut -c1-400)"
  [ $r -gt 1 ] && tail -5 "$W/ce"
done
true
