#!/bin/bash
# Builds the checker and warms the export data the loader needs.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$here/bin" "$here/out" "$here/evidence"
cd "$here/checker" && go build -o "$here/bin/checker" .
cd /repo && go list -export -deps ./... >/dev/null
