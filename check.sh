#!/bin/sh
# check.sh ID [quick|thorough]: builds from /repo's working tree and explores one property.
# Exit 0: held on everything explored; 1: violation; 2: the machinery itself failed.
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
"$here/build.sh" || exit 2
mkdir -p "$here/evidence"
exec "$here/harness/target/release/mc" run "$1" "$tier" "$here/evidence"
