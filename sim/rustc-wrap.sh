#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test and the simulated programs (whose monomorphised code contains
# most of the crate) with compiler-inserted access callbacks, and everything else (the simulator runtime) without.
rustc=$1; shift
name=; prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case $name in
    mutringbuf|simcore|ih_*|ics_*|ils_*|ictor|crossbeam_utils)
        exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Zshare-generics=no ;;
    simdrv)
        exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
    *)
        exec "$rustc" "$@" ;;
esac
