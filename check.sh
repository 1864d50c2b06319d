#!/bin/bash
# check.sh ID: decides one property for /repo's working tree.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
if ! ./setup.sh; then
  echo "cannot build the verifier"
  exit 2
fi
bin/govc -repo "${VERIF_REPO:-/repo}" -contracts "$here/contracts" check "$1"
