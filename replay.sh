#!/bin/bash
# replay.sh FILE: runs a recorded counterexample against /repo's current code.
set -e
cd "$(dirname "$0")"
python3 check.py --build >/dev/null
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
f=$(realpath "$1")
REPLAY_DIR=$d ./build/native/debug/replay "$f"
