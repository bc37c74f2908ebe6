#!/bin/sh
# check.sh <tier> <property>: runs one check
cd "$(dirname "$0")" && exec "${DST_PYTHON:-/opt/venv/bin/python}" -m dst.runner "$@"
