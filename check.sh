#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the harness and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_HOME=$here
mkdir -p "$here/bin" || exit 4
tmp=$(mktemp "$here/bin/vrun.XXXXXX") || exit 4
(cd "$here/harness" && go build -o "$tmp" ./cmd/vrun) || { rm -f "$tmp"; echo "the harness does not build" >&2; exit 4; }
"$tmp" "$@"
code=$?
rm -f "$tmp"
exit $code
