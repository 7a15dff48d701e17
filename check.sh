#!/bin/bash
# usage: check.sh Cnn [quick|thorough] [subproperty]   |   check.sh Cnn replay FILE
# Runs one property's check against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONPATH
# never trust a .pyc of /repo or /verif: compile from the sources on every run
cache=$(mktemp -d /tmp/verif-pyc.XXXXXX)
trap 'rm -rf -- "$cache"' EXIT
export PYTHONPYCACHEPREFIX=$cache
py=/opt/veriftools/pyvenv/bin/python
[ -x "$py" ] || py=/opt/venv/bin/python
"$py" -W error::SyntaxWarning "$here/run.py" "$@"
