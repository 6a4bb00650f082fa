#!/bin/bash
# sim/check.sh ID: builds what is needed from /repo's working tree and runs the check of one property.
# sim/check.sh replay FILE: builds, and runs a replay file again.
here=$(cd "$(dirname "$0")" && pwd)
t=${ZKSIM_TARGET:-$here/target}
cmd=check
if [ "$1" = replay ]; then cmd=replay; shift; fi
case $(basename "$1") in C07*|C08*|C19*) js=js ;; C06*) js=threads ;; *) js= ;; esac
if ! out=$("$here/build.sh" $js 2>&1); then
  echo "$out" | tail -40 >&2
  echo "the build failed" >&2
  exit 2
fi
if [ "$js" = js ]; then exec node "$here/js/sim.mjs" $cmd "$1"; fi
exec "$t/harness/release/zksim" $cmd "$1"
