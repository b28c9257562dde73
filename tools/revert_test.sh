#!/bin/bash
# revert_test.sh COMMIT CHECK...: run checks against a copy of /repo with a commit reverted
set -e
c=$1; shift
d=$(mktemp -d /tmp/rev.XXXXXX)
cp -a /repo/. "$d/"
git -C "$d" revert --no-edit -n "$c" >/dev/null 2>&1 || { echo "REVERT CONFLICT $c"; rm -rf "$d"; exit 3; }
for k in "$@"; do
  BACKY_REPO=$d timeout 900 /opt/venv/bin/python /verif/run.py "$k" --tier quick 2>&1 | tail -${TAIL:-4} | cut -c1-${COLS:-300}
done
rm -rf "$d"
