#!/bin/bash
# run.sh CHECK [ARGS...]: builds /repo's working tree with the check's harness and runs it.
#   e.g.  ./run.sh c01            VERIF_TIER=thorough ./run.sh c01
#         ./run.sh c01 --list     ./run.sh c01 --space NAME     ./run.sh c01 --replay evidence/replay/C01-1.json
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
c=$1; shift
src=checks/$c.cpp
flavour=$(sed -n 's|^// *flavour: *||p' $src | head -1)
extra=$(sed -n 's|^// *extra: *||p' $src | head -1)
exe=$(python3 lib/build.py ${flavour:-asan} $src lib/fakempi.cpp lib/fakempi_syms.cpp $extra) || { echo "build failed"; exit 2; }
exec "$exe" "$@"
