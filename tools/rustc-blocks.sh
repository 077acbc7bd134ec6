#!/bin/bash
# rustc wrapper: the library and the simulator get a callback at every basic block, other crates are left alone.
rustc="$1"
shift
case " $* " in
*" --crate-name factrs "*|*" --crate-name simcheck "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc \
        -C llvm-args=-sanitizer-coverage-trace-stores=1 ;;
*) exec "$rustc" "$@" ;;
esac
