#!/bin/bash
# rustc wrapper: compile the library under test, its lazy-initialisation cell
# and the thin operation layer so that every memory access and atomic operation
# calls into the simulator's runtime (crate `simrt`), which owns the scheduler.
rustc="$1"; shift
name=""; target=0; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$prev" = "--crate-type" ] && [ "$a" = "bin" ] && kind=bin
  prev="$a"
done
case "$name" in
  build_script_*) exec "$rustc" "$@" ;;
  phonenumber|once_cell|ops)
    # only the target build, not the copies the build script links
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
  simcheck)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zunstable-options -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
