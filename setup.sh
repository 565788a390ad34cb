#!/bin/bash
# Warm build of the harness. Checks build what they need themselves: this only fails early.
cd "$(dirname "$0")" || exit 3
. ./build.sh
build all && build none
