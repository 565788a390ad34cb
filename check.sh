#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the harness against /repo's working tree and decides one property.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no answer.
cd "$(dirname "$0")" || exit 3
export VP_HOME=$PWD VP_SCRATCH=$PWD/target-vp/scratch
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. ./build.sh
build "$id" || exit 2
mkdir -p "$VP_SCRATCH"
case $id in
C19 | C20) cli_dir || exit 2 ;;
esac
"$bin" check "$id" --tier "$tier"
