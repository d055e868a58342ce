#!/bin/sh
# rustc wrapper: code-edge instrumentation (the simulator's preemption points)
# for the system under test and the crates that schedule or synchronise it.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  cres|cli_cres|cli_partition|cli_classify|simrun|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils|parking_lot|parking_lot_core|lock_api|thread_local|logbar|indicatif)
    for a in "$@"; do
      case "$a" in proc-macro) exec "$rustc" "$@";; esac
    done
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
