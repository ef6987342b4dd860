#!/bin/bash
# usage: check.sh ID [quick|thorough] [options for gokosim]   Builds the simulator with /repo's working tree and decides one property.
# exit 0: held on everything explored; 1: violation; 2: the check itself could not be carried out.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
./build.sh > /verif/target.build.log 2>&1 || { cat /verif/target.build.log | tail -60; echo "error: the simulator does not build against this tree"; exit 2; }
exec /verif/target/debug/gokosim check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" "$@"
