#!/bin/bash
# usage: try.sh PATCH|-R:COMMIT  PROP...   runs checks against a scratch copy of /repo with the change
set -e
src=$1; shift
d=$(mktemp -d /tmp/try-XXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo"
case $src in
  -R:*) git diff "${src#-R:}" "${src#-R:}~1" | git apply ;;
  *) git apply "$(cd "$OLDPWD" && realpath "$src")" ;;
esac
cd /verif
for p in "$@"; do
  echo "== $p"
  VERIF_REPO=$d/repo timeout 900 python3 check.py $p --no-evidence $TRYARGS 2>&1 | cut -c1-400 || true
done
rm -rf "$d"
