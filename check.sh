#!/bin/sh
# check.sh <property>: build the simulator with /repo's current working tree, then search.
# Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
if ! sh "$here/sim/build.sh" >"$here/build.log" 2>&1; then
  tail -40 "$here/build.log" >&2
  echo "check.sh: the simulator does not build with /repo's current tree" >&2
  exit 2
fi
export SIM_VERIF="$here"
exec "${SIM_TARGET:-$here/target}/debug/simwl" check "$1"
