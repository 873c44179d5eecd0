#!/bin/sh
# RUSTC_WRAPPER: adds SanitizerCoverage (the preemption seam) to the crates whose steps the
# simulator must be able to interleave.  Everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
BB="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
MEM="-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
case "$name" in
  rust_light|simwl) exec "$rustc" "$@" $BB $MEM ;;
  rayon_core|crossbeam_channel) exec "$rustc" "$@" $BB ;;
  *) exec "$rustc" "$@" ;;
esac
