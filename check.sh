#!/bin/bash
# check.sh PROPERTY [quick|thorough]   -- one check, from /repo's working tree
cd /verif || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
bash /verif/sim/build.sh || exit 2
. /verif/sim/target/paths.sh
unset RUSTFLAGS RUSTC_WRAPPER
exec "$SIM_EXE" check --prop "$1" --tier "$tier" --seed "$seed"
