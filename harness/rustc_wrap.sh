#!/bin/sh
# RUSTC_WRAPPER: coverage counters for the code under test only.
rustc=$1
shift
name=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name=$a
    prev=$a
done
case $name in
minifier | vp_api)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Clto=off -Cembed-bitcode=no
    ;;
esac
exec "$rustc" "$@"
