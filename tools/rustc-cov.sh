#!/bin/bash
# RUSTC_WRAPPER: adds SanitizerCoverage edge callbacks to the code under test and the parser library below it.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ "$WMON_COV" = guide ]; then
  # counters in place and comparisons, for the guided workloads
  case "$name" in
    weedle) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
    *) exec "$rustc" "$@" ;;
  esac
fi
case "$name" in
  weedle|nom|memchr)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
