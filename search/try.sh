#!/bin/bash
# try.sh PKG SECONDS ID...: runs the oracles for some seconds each (development aid)
here=$(cd "$(dirname "$0")/.." && pwd)
tmp=$(mktemp -d /tmp/verif-try.XXXXXX); trap 'rm -rf "$tmp"' EXIT
pkg=$1 sec=$2; shift 2
VERIF_TMP=$tmp "$here/search.sh" "$pkg" "$tmp/s.test" || exit 2
cd "$tmp"
for id in "$@"; do echo "== $id"; VERIF_PROP=$id VERIF_SECONDS=$sec timeout 900 ./s.test -test.run '^TestVerifSearch$' | tail -${LINES_MAX:-40}; done
