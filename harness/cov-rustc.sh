#!/bin/bash
# rustc wrapper of the guided build: SanitizerCoverage for the crate under test
# only; the harness is told that it is guided.
p=
for a in "$@"; do
  if [ "$p" = --crate-name ]; then
    case "$a" in
    text_encoding)
      exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares ;;
    tev)
      exec "$@" --cfg guided -Ctarget-feature=+popcnt -Clink-arg=-Wl,--wrap=memcmp,--wrap=bcmp ;;
    esac
  fi
  p="$a"
done
exec "$@"
