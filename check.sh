#!/bin/bash
# check.sh <property> quick|thorough|replay [episode]
# Rebuilds the monitor against /repo's working tree and runs one property.
# exit 0: held on everything observed; 1: VIOLATION; 2: inconclusive.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
PROP="${1:?property}"; MODE="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
. "$ROOT/lib.sh"
rm -f "$ROOT/evidence/$PROP.json"
BIN="$(bin_of "$PROP")"
case "$BIN" in
  none) echo "unknown property $PROP" >&2; exit 2 ;;
  crypto) build_crypto || exit 2; run_crypto "$PROP" "$MODE" "$@" ;;
  *) build_mon "$BIN" || exit 2; "$TGT_MON/debug/$BIN" "$PROP" "$MODE" "$@" ;;
esac
RC=$?
# The monitored code took the whole process down (abort, stack overflow,
# invalid memory access): that is a violation of any property. A kill from
# outside (SIGKILL, SIGTERM) is not.
case $RC in
  132|134|135|136|139)
    mkdir -p "$ROOT/evidence/replay"; R="$ROOT/evidence/replay/$PROP-crash.txt"
    echo "property=$PROP seed=${VERIF_SEED:-1} mode=$MODE: the process died with status $RC; rerun check.sh $PROP $MODE" >"$R"
    [ -f "$ROOT/evidence/$PROP.json" ] || printf '{"property":"%s","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":0,"rule":"stopped by a crash","samples":["status %s"]},"wall_s":0,"violations":1}\n' "$PROP" quick "${VERIF_SEED:-1}" "$RC" >"$ROOT/evidence/$PROP.json"
    echo "VIOLATION property=$PROP replay=$R"; exit 1 ;;
esac
exit $RC
