#!/bin/bash
# Builds the checker (cached) and runs the check of one property against /repo's working tree.
# usage: run.sh <property id>
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "$here/checker" || exit 2
mkdir -p "$here/bin" "$here/out" "$here/evidence"
if ! go build -o "$here/bin/checker" . ; then echo "checker does not build"; exit 2; fi
cd "$here" || exit 2
rc=2
for try in 1 2 3; do
  said="$(bin/checker "$1")"; rc=$?
  printf '%s\n' "$said"
  [ $rc -eq 0 ] && exit 0
  if [ $rc -eq 1 ]; then
    case "$said" in *VIOLATION*) exit 1 ;; esac
    rc=2
  fi
  # the go command's cache can be cold or being rewritten: warm it and try again
  (cd "${VERIF_REPO:-/repo}" && go list -export -deps ./... >/dev/null 2>&1)
done
exit $rc
