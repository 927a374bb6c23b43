#!/bin/sh
# RUSTC_WRAPPER: instruments the crate under test, and only it
rustc="$1"; shift
case " $* " in
*" --crate-name dumb_crypto "*)
    exec "$rustc" "$@" -C opt-level=1 -C codegen-units=1 -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-pc-table \
        -C llvm-args=-sanitizer-coverage-trace-compares ;;
*" --crate-name harness "*)
    exec "$rustc" "$@" -C link-arg=-Wl,--wrap=bcmp -C link-arg=-Wl,--wrap=memcmp ;;
*) exec "$rustc" "$@" ;;
esac
