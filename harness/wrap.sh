#!/bin/bash
# rustc wrapper: compiles the code under test (apint, smallvec) and the thin call
# glue (apops) with SanitizerCoverage so that every control-flow edge, load and
# store calls into the simulator.  Everything else is compiled unchanged.
rustc="$1"; shift
extra=()
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then
    case "$a" in
      apint|smallvec|apops)
        extra=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3
               -Cllvm-args=-sanitizer-coverage-trace-pc-guard
               -Cllvm-args=-sanitizer-coverage-trace-loads
               -Cllvm-args=-sanitizer-coverage-trace-stores
               -Ccodegen-units=1);;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@" "${extra[@]}"
