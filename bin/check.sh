#!/bin/bash
# usage: check.sh ID [tier]   (VERIF_SEED and VERIF_TIER are honoured)
here=$(cd "$(dirname "$0")/.." && pwd)
[ -n "$2" ] && export VERIF_TIER=$2
if [ "$1" = C24 ]; then
	"$here/bin/build.sh" nostd
else
	"$here/bin/build.sh"
fi
case $? in
0) ;;
3) echo "VIOLATION property=C24 replay=$here/replays/C24-build.log"; exit 1 ;;
*) exit 2 ;;
esac
export PBT_ROOT="$here"
exec "$here/pbt/target/release/pbt" check "$1"
