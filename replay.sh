#!/bin/bash
# bash replay.sh <ID> <replay file>: builds the harness natively against /repo and runs the recorded inputs
cd "$(dirname "$0")" && exec python3 engine/replay.py "$@"
