#!/bin/bash
# exit 0: the property holds; anything else: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d)
cd "$dir" || exit 3
PYTHONPATH="$repo:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 \
    OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg \
    timeout 200 /opt/venv/bin/python -W ignore "$here/demo.py" >out.txt 2>err.txt
rc=$?
grep -h BROKEN out.txt
[ $rc -ne 0 ] && tail -5 err.txt
cd /
rm -rf "$dir"
exit $rc
