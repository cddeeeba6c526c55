#!/bin/bash
# rustc wrapper: SanitizerCoverage (edges and comparisons) for the library under test only
rustc="$1"
shift
case " $* " in
*" --crate-name rphtml "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
  ;;
esac
exec "$rustc" "$@"
