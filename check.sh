#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current working tree
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" GOVC_CONTRACTS="$PWD/contracts"
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -name '*.go')" ]; then bash build.sh || exit 3; fi
exec bin/govc check -p "$@"
