#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
export LC_ALL=en_US.UTF-8 LANG=en_US.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/veriftools/pyvenv/bin/python -m engine.run "$@"
