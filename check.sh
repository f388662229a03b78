#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python -m pbt "$@"
