#!/bin/bash
# run.sh <property> [quick|thorough] : builds the checker from /repo's working
# tree (instrumented through an overlay) and runs one check.
# run.sh replay <file>               : runs the unit a violation names.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
. ./env.sh
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mcbuild.XXXXXX")
trap '[ -n "$tmp" ] && rm -rf "$tmp"' EXIT
mode=
case "$1 $(basename "${2:-}")" in C10*|C21*|C23*|C26*|replay\ C10*|replay\ C21*|replay\ C23*|replay\ C26*) mode=sched;; esac
bash ./build.sh "$tmp" $mode || exit 2
if [ "$1" = replay ]; then
  "$tmp/mc" replay "$2"; exit $?
fi
"$tmp/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
exit $?
