#!/bin/bash
# usage: check.sh Cxx [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3 vlib/check.py "$@"
