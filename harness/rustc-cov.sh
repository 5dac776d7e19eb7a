#!/bin/sh
# RUSTC_WRAPPER of the check build: counts executed edges in the library under
# test and in this harness (which holds the library's generic code), so that
# termination can be judged by a step budget instead of a clock.
rustc=$1
shift
case " $* " in
*" --target "*)
    case " $* " in
    *" --crate-name osmpbf "*|*" --crate-name harness "*)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac ;;
esac
exec "$rustc" "$@"
