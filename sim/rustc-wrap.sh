#!/bin/bash
# Cargo's RUSTC_WRAPPER: instruments the code under test (and the consumers of the driver) with one call per
# basic-block edge; everything else is compiled as usual.
rustc="$1"; shift
case " $* " in
  *" --crate-name nrbf "*|*" --crate-name nrbf_plain "*|*" --crate-name driver "*|*" --crate-name nom "*|*" --crate-name serde "*|*" --crate-name serde_core "*|*" --crate-name rust_decimal "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
