#!/bin/bash
# check.sh PROPERTY [TIER]: build the verifier and decide one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
bin=$here/bin/vt
mkdir -p "$here/bin"
(cd "$here/tool" && go build -o "$bin" .) || exit 2
exec "$bin" check -root "$here" -contracts "$here/contracts" -repo /repo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
