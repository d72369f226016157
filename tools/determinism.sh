#!/bin/bash
# determinism.sh [RUNS [SEEDS]]: event digests of RUNS runs of every phase of
# every check, for seeds 1..SEEDS, must be the same in separate processes and
# however the runs are divided among processes.
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
N="${1:-400}"; SEEDS="${2:-3}"
"$VERIF/build.sh" plain race || exit 2
B="$VERIF/build"; W=$(mktemp -d "$B/det-XXXXXX"); trap 'find "$W" -delete' EXIT
export GORACE="atexit_sleep_ms=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2 log_path=$W/race" GODEBUG=randautoseed=0 TZ=UTC
bad=0; tot=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C21 C24; do
  for k in 0 1 2; do
    bin=sim
    case $p$k in C041|C071|C101|C111|C121|C141) bin=sim-race ;; C011|C021|C031|C051|C061|C091|C131|C211|C241|C??2) [ $p$k = C142 ] || continue ;; esac
    for s in $(seq 1 $SEEDS); do
      $B/$bin digest -prop $p -phase $k -seed $s -n $N > $W/a &
      ( for w in 0 1 2 3 4 5 6; do $B/$bin digest -prop $p -phase $k -seed $s -w $w -W 7 -n $N > $W/b$w & done; wait; cat $W/b? | sort > $W/b ) &
      ( GOMAXPROCS=1 $B/$bin digest -prop $p -phase $k -seed $s -n $N | tac | sort > $W/c ) &
      wait
      sort -o $W/a $W/a
      tot=$((tot + $(wc -l < $W/a)))
      cmp -s $W/a $W/b && cmp -s $W/a $W/c || { echo "DIFFERS: $p phase $k seed $s"; bad=1; }
      [ -s $W/a ] || { echo "EMPTY: $p phase $k seed $s"; bad=1; }
    done
  done
done
echo "$tot runs, three divisions each: $([ $bad = 0 ] && echo identical || echo NOT identical)"
exit $bad
