#!/bin/bash
# RUSTC_WRAPPER: the crate under test and the code that instantiates it are compiled with calls
# to the simulator's __tsan_* hooks at every atomic operation (simlock/src/mem.rs).
rustc="$1"; shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
case "$name" in
xecs | xsim)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt \
        -Cunsafe-allow-abi-mismatch=sanitizer \
        -Cllvm-args=-tsan-instrument-memory-accesses=1 -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
        -Cllvm-args=-tsan-instrument-memintrinsics=1
    ;;
*) exec "$rustc" "$@" ;;
esac
