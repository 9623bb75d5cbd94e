#!/bin/bash
# Adds the instrumentation flags to every crate built for the simulated target, except the
# simulation runtime itself.
rustc="$1"; shift
target=0; name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  case "$a" in --target|--target=*) target=1;; esac
  prev="$a"
done
if [ $target = 1 ]; then
  set -- "$@" -Cunsafe-allow-abi-mismatch=sanitizer -Cforce-frame-pointers=yes
  case "$name" in
    rt|libc) ;;
    *) set -- "$@" -Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
  esac
fi
exec "$rustc" "$@"
