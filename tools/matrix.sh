#!/bin/bash
# matrix.sh OUT [ID...]: which checks catch which planted bugs. Every check is
# run against every planted bug in a scratch copy, its own property's in full
# and the others at a tenth of their quick runs.
OUT="$1"; shift
IDS="$*"; [ -z "$IDS" ] && IDS=$(ls /verif/seeded)
: > "$OUT"
for ID in $IDS; do
  W=$(mktemp -d /tmp/matrix-XXXXXX)
  cp -a /repo "$W/repo"
  git -C "$W/repo" apply "/verif/seeded/$ID/patch.diff" || { echo "$ID does not apply" >> "$OUT"; find "$W" -delete; continue; }
  OWN=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  L="$ID $OWN:"
  for P in $OWN C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C21 C24; do
    S=0.1; [ $P = $OWN ] && S=1
    [[ " $L" == *"$OWN="* && $P = $OWN ]] && continue
    VERIF_MINIMISE=2 VERIF_SCALE=$S VERIF_REPO="$W/repo" VERIF_BUILD="$W/build" timeout 900 /verif/check.sh $P > "$W/c" 2>"$W/ce"; r=$?
    L="$L $P=$r"
  done
  echo "$L" >> "$OUT"
  find "$W" -delete
done
