#!/bin/bash
# Build everything once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
bash build.sh simrt simcur simtui simcli
NOCACHE=1 bash build.sh simrt
# a tree that cannot be built is for the checks to report
exit 0
