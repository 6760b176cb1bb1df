#!/bin/bash
# nothing to install: the checks build everything they need from /repo; this only verifies that the tools are there
set -e
for t in gcc make objcopy nm python3; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
echo ok
