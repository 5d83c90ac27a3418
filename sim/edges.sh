#!/bin/sh
# rustc wrapper: the library calls __sanitizer_cov_trace_pc on every edge
case " $* " in
  *" --crate-name wadec "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$@"
