#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on the current tree of /repo
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export HOME=${HOME:-/root}
prop=$1 tier=${2:-quick}
case $prop in
  S*) group=sel ;;
  M11) group=cache ;;
  M*) group=mrg ;;
  P*) group=css ;;
  C*) group=conc ;;
esac
[ -f "$here/harness/map.txt" ] && g=$(awk -v p="$prop" '$1==p{print $2}' "$here/harness/map.txt") && [ -n "$g" ] && group=$g
if [ ! -x "$here/build/engine" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$here/build/engine" -print -quit)" ]; then
  "$here/setup.sh" || { echo "INCONCLUSIVE property=$prop the engine does not build"; exit 2; }
fi
limit=600s samples=100
[ "$tier" = thorough ] && limit=700s
[ "$group" = conc ] && samples=40
exec "$here/build/engine" -repo /repo -verif "$here" -group "$group" -prop "$prop" -tier "$tier" -limit "$limit" -samples "$samples" -evidence "${@:3}"
