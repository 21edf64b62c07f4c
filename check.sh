#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the explorer against /repo's working tree and decides one property
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
case $ID in
C09 | C21 | C22) BIN=mcapi ;;
*) BIN=mc ;;
esac
LOG=$(mktemp) || exit 2
if ! ./build.sh $BIN dinero >"$LOG" 2>&1; then
    echo "the explorer does not build against /repo:"
    tail -40 "$LOG"
    rm -f "$LOG"
    exit 2
fi
rm -f "$LOG"
export VERIF_DIR=$V
exec "$V/.build/debug/$BIN" run "$ID" "$TIER"
