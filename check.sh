#!/bin/bash
# bash check.sh <property id>   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" && exec python3 engine/check.py "$@"
