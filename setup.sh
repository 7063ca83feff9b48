#!/bin/bash
# setup.sh: checks that the harness builds and warms the build cache the checks use.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin" || exit 1
(cd "$here/harness" && go build -o /dev/null ./cmd/vrun) || exit 1
exit 0
