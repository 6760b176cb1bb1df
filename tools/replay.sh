#!/bin/bash
# replay.sh FILE: rebuilds the harness of a replay file from /repo and runs the one execution verbosely
set -e
H=$(cd "$(dirname "$0")/.." && pwd)
read -r _ engine src < <(grep '^harness ' "$1")
W=$(mktemp -d /tmp/verif-replay-XXXXXX)
trap 'rm -r "$W"' EXIT
bash "$H/$engine/build.sh" "$W" "$H/$engine/$src"
"$W/harness" --replay "$(realpath "$1")"
