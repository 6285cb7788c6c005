#!/bin/sh
# Nothing is prepared ahead of a check: every check builds its harness from /repo's working tree.
# This only confirms that the tools the checks use are present.
set -e
cd "$(dirname "$0")"
for t in clang clang++ objcopy python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p .work evidence replays
echo ok
