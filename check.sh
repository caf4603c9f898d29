#!/bin/bash
# usage: check.sh PROPERTY [--thorough]   (run in /verif; analyses /repo's working tree)
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec python3-vt athsa/check.py "$@"
