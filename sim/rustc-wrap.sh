#!/bin/sh
# Used as RUSTC_WRAPPER: adds a callback on every control-flow edge of the crates under test.
# The callbacks are the simulator's preemption points (and its coverage measure).
rustc="$1"; shift
case " $* " in
  *" --crate-name termimad "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
