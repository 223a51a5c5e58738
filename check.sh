#!/bin/bash
# check.sh ID [--replay FILE]: exit 0 held, 1 violation, 2 no answer
. /verif/env.sh
export VERIF_DIR=/verif
WHAT=harness; [ "$1" = C31 ] && WHAT=all
bash /verif/build.sh $WHAT || exit 2
T=${FIXCHECK_TARGET:-/verif/harness/target}
export FIXCHECK_APP=$T/app/debug/fix-rs
BIN=$T/debug/fixcheck
cd /verif || exit 2
if [ "$2" = --replay ]; then exec "$BIN" replay "$3"; fi
exec "$BIN" run "$1"
