#!/bin/bash
# check.sh ID [quick|thorough]: builds what the property needs from /repo's working tree and checks it.
V=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
case $ID in
C17) L="asan" ;;
C22 | C23) L="std bins" ;;
C24) L="std wide" ;;
*) L="std" ;;
esac
bash $V/build.sh $L >&2 || { echo "check.sh: build failed" >&2; exit 2; }
exec $V/build/harness-target/release/harness check $V $ID $TIER
