#!/bin/bash
# check.sh <property id>: decide one property on /repo's current working tree
cd "$(dirname "$0")"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
exec python3 tool/check.py "$@"
