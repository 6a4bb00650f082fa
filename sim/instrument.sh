#!/bin/bash
# The compiler of the driver of C06 (RUSTC_WRAPPER): calls the simulator at every atomic operation and
# at every load and store in the code under test.
rustc=$1; shift
case " $* " in
  *" --crate-name zk_regex_compiler "*|*" --crate-name zk_regex_apis "*) more= ;;
  *" --crate-name driver "*) more="-C link-arg=$ZKSIM_SHIM" ;;
  *) exec "$rustc" "$@" ;;
esac
exec "$rustc" "$@" -C passes="sancov-module function(tsan)" -C llvm-args=-tsan-instrument-func-entry-exit=0 \
  -C llvm-args=-sanitizer-coverage-level=1 -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores $more
