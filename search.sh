#!/bin/bash
# search.sh PKG OUT: builds the replay harness of a package of /repo (njson,
# strjson, numjson or unjson) as the test binary OUT.
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
tmp=${VERIF_TMP:?}
pkg=$1 out=$2
case $pkg in njson) dir=. ;; *) dir=$pkg ;; esac
mkdir -p "$tmp/src"
sed "s/^package PKGNAME/package ${pkg}_test/" "$here/search/driver.go.txt" > "$tmp/src/driver.go"
{
  echo '{"Replace": {'
  for f in "$here/search/$pkg"/*.go.txt; do
    b=$(basename "$f" .go.txt)
    cp "$f" "$tmp/src/$b.go"
    echo "\"$repo/$dir/zz_verif_${b}_test.go\": \"$tmp/src/$b.go\","
  done
  # the tests of the repository are left out: they may not build with a change, and are not needed
  for f in "$repo/$dir"/*_test.go; do
    [ -e "$f" ] && echo "\"$f\": \"\","
  done
  echo "\"$repo/$dir/zz_verif_driver_test.go\": \"$tmp/src/driver.go\""
  echo '}}'
} > "$tmp/overlay.json"
cd "$repo"
GOFLAGS=-mod=mod GOSUMDB=off go test -vet=off $VERIF_GOTEST -overlay "$tmp/overlay.json" -c -o "$out" "./$dir"
