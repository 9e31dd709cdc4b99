#!/bin/bash
# check.sh <property> [quick|thorough] [--seed N]: rebuilds the monitor of <property> from /repo's working tree and runs it.
cd /verif/harness || exit 3
. /verif/env.sh
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
case $P in
  P*) BIN=dex ;;
  I*) BIN=inc ;;
  T*) BIN=tok ;;
  A*) BIN=per ;;
  *) echo "unknown property $P"; exit 3 ;;
esac
mkdir -p /verif/target /verif/evidence
exec 9>/verif/target/.check.lock
flock 9
python3 /verif/tools/fresh.py
if ! cargo build --offline -p $BIN >/verif/target/build.$BIN.log 2>&1; then
  echo "ERROR: build of the monitored contracts failed"; tail -40 /verif/target/build.$BIN.log; exit 3
fi
python3 /verif/tools/fresh.py --save
flock -u 9
export VERIF_TIER=$TIER
exec /verif/target/debug/$BIN $P --tier $TIER "$@"
