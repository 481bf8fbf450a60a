#!/bin/bash
# pack.sh OUT.tgz: the stand-in ROS for demonstrations (headers are the simulator's shim)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
H=$(dirname "$(realpath "$0")"); V=$H/../..
cp -r $V/sim/shim/include $W/include; cp -r $V/build/gen $W/gen; cp $H/demo.hpp $H/demo_ros.cpp $W/
tar czf "$1" --sort=name --mtime=2026-01-01 --owner=0 --group=0 -C $W .
