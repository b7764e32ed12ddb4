#!/bin/bash
# Adds callbacks (= simulated preemption points) on basic-block edges and atomic operations to selected
# crates, nothing else. The latter is ThreadSanitizer's instrumentation of atomics alone, with the runtime in simrt.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  cmaes|scn|rayon|rayon_core|crossbeam_deque|crossbeam_epoch)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc \
      -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
      -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
      -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
  *) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
