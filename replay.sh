#!/bin/bash
# replay.sh ID: runs case VERIF_CASE (seed VERIF_SEED) of the property's oracle against /repo.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/verif-replay.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
pkg=$(python3 -c "import json,sys;print(json.load(open('$here/checks.json'))['$1']['search'])")
[ "$1" = C30 ] && export VERIF_GOTEST=-race
VERIF_TMP=$tmp "$here/search.sh" "$pkg" "$tmp/s.test" || exit 2
export GORACE="halt_on_error=1 exitcode=66"
cd "$tmp" && VERIF_PROP=$1 ./s.test -test.run '^TestVerifSearch$'
