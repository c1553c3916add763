#!/bin/bash
# vc/run.sh <property>: decide one property on /repo's current tree
cd "$(dirname "$0")/.." || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python3 vc/check.py "$@"
