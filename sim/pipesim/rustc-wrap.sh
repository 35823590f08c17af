#!/bin/bash
# $1 = rustc path; instrument only target crates (those compiled with --target)
rustc="$1"; shift
instr=0; pm=0
prev=
for a in "$@"; do
  [ "$prev" = "--target" ] && instr=1
  prev="$a"
done
if [ $instr = 1 ]; then
  export RUSTC_BOOTSTRAP=1
  exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0
else
  exec "$rustc" "$@"
fi
