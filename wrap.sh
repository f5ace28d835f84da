#!/bin/bash
# RUSTC_WRAPPER of the instrumented build: visible operations become calls (rayon-core-mc/src/visible.rs)
RUSTC=$1
shift
case " $* " in
  *" --crate-name laz "* | *" --crate-name mc "*)
    exec "$RUSTC" "$@" -C "passes=function(tsan),sancov-module" -C "llvm-args=-sanitizer-coverage-level=1 -sanitizer-coverage-trace-loads -sanitizer-coverage-trace-stores"
    ;;
esac
exec "$RUSTC" "$@"
