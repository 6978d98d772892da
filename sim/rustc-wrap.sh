#!/bin/sh
# Adds basic-block hooks (preemption points and coverage) to the code under test only.
rustc="$1"; shift
case " $* " in
  *" --crate-name ced "*|*" --crate-name ced_remote "*|*" --crate-name ffishim "*)
    exec "$rustc" "$@" -C embed-bitcode=no -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
