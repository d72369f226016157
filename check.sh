#!/bin/bash
# check.sh PROPERTY            decide a property (VERIF_SEED, VERIF_TIER)
# check.sh --replay FILE       replay a violation
# Exit 0: held; 1: violated; anything else: the check itself failed.
VERIF="$(cd "$(dirname "$0")" && pwd)"
B="${VERIF_BUILD:-$VERIF/build}"
export TZ=UTC VERIF_KNOWN="$VERIF/known_findings.txt"
if [ "$1" = "--replay" ]; then
  t=plain; bin=sim
  if grep -q '"race_build": true' "$2"; then t=race; bin=sim-race; fi
  "$VERIF/build.sh" $t >&2 || exit 2
  W=$(mktemp -d "$B/replay-XXXXXX")
  GORACE="atexit_sleep_ms=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2 log_path=$W/race" \
    GODEBUG=randautoseed=0 "$B/$bin" replay "$2"
  rc=$?
  find "$W" -type f -delete; rmdir "$W"
  exit $rc
fi
P="$1"
case "$P" in
  C04|C07|C10|C11|C12|C14) T="plain race" ;;
  *) T="plain" ;;
esac
if ! "$VERIF/build.sh" $T >&2; then
  echo "check.sh: build failed" >&2
  exit 2
fi
exec "$B/sim" check -prop "$P" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$VERIF" ${VERIF_SCALE:+-scale $VERIF_SCALE} ${VERIF_WALL:+-wall $VERIF_WALL}
