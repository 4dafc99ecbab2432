#!/bin/sh
# rustc wrapper: adds LLVM sanitizer-coverage callbacks to the crates under
# test (magog, its WKT reader, and the crate that monomorphises their generics)
# so that every basic block and every load/store of real library code is a
# scheduling point of the simulator.  Every other crate is compiled normally.
rustc="$1"; shift
prev=; name=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  magog|subject|wkt)
    exec "$rustc" "$@" -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
