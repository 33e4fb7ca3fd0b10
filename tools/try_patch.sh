#!/bin/sh
# tools/try_patch.sh PATCH|revert:HASH ID...   runs quick checks against a scratch copy of /repo with the change
set -e
what=$1; shift
d=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo "$d/repo"
case $what in
revert:*) git -C "$d/repo" revert -n "${what#revert:}" ;;
*) git -C "$d/repo" apply "$what" ;;
esac
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    SIM_REPO=$d/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -B "$here/run.py" check "$id" ${RUNS:+--runs $RUNS} | tail -${LINES_:-5} || true
done
rm -rf "$d"
