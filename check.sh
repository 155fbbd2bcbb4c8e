#!/bin/bash
# check.sh C01: decides one property against the current tree of /repo (VERIF_TIER=quick|thorough)
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/env.sh"
(cd "$ROOT/engine" && go build -mod=vendor -o "$ROOT/bin/symx" .) >&2 || exit 2
exec "$ROOT/bin/symx" check -root "$ROOT" -property "$@"
