#!/bin/bash
# usage: replay.sh REPLAY.json   exit 1 when the violation is reproduced
here=$(cd "$(dirname "$0")/.." && pwd)
kind=
case $(basename "$1") in C24-*) kind=nostd ;; esac
"$here/bin/build.sh" $kind
case $? in
0) ;;
3) echo "VIOLATION property=C24 replay=$1"; exit 1 ;;
*) exit 2 ;;
esac
exec "$here/pbt/target/release/pbt" replay "$1"
