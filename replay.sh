#!/bin/bash
# usage: replay.sh FILE
# Builds everything against /repo's working tree and runs one replay file.
f=$(realpath "$1") || exit 3
cd "$(dirname "$0")" || exit 3
export VP_HOME=$PWD VP_SCRATCH=$PWD/target-vp/scratch
. ./build.sh
build all || exit 2
mkdir -p "$VP_SCRATCH"
cli_dir || exit 2
"$bin" replay "$f"
