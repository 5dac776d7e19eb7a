#!/bin/sh
# RUSTC_WRAPPER of the libFuzzer build: coverage counters and compare tracing
# for the code under test (target crates only, not build scripts).
rustc=$1
shift
case " $* " in
*" --target "*)
    case " $* " in
    *" --crate-name osmpbf "*|*" --crate-name harness "*|*" --crate-name protobuf "*)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
    esac ;;
esac
exec "$rustc" "$@"
