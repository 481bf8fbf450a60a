#!/bin/bash
# Builds the repository's own sources (cwd) with the stand-in ROS headers and the demonstration, and runs it.
# usage: run.sh KITDIR DEMO.cpp [extra g++ flags]
K=$1; D=$2; shift 2
R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir $W/kit && tar xzf $K/kit.tgz -C $W/kit || exit 3
F="-std=c++17 -O1 -w -I$W/kit -I$W/kit/include -I$W/kit/gen -I$R/include -isystem /usr/include/eigen3 $*"
for s in $R/src/*.cpp $W/kit/demo_ros.cpp $D; do
  g++ $F -c $s -o $W/$(basename $s).o || touch $W/failed &
done
wait
[ -e $W/failed ] && { echo "does not compile"; exit 3; }
g++ $* -o $W/demo $W/*.o -lceres -lglog -lpthread || exit 3
cd $W && timeout 200 ./demo 2> $W/err
rc=$?
[ $rc -eq 0 ] || { tail -5 $W/err; echo "exit status $rc"; }
exit $rc
