#!/bin/bash
# run.sh ID quick|thorough : builds the checker against /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 1
export VERIF_ROOT="$PWD"
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
B="$PWD/.build"
mkdir -p "$B"
# the standard "library" is looked up beside the executable
[ -e "$B/std" ] || ln -sfn /repo/std "$B/std"
OV=()
./rxcache.sh "$B/rx" 2>/dev/null && OV=(-overlay "$B/rx/overlay.json")
if ! (cd mc && { go build "${OV[@]}" -o "$B/verifmc.$1.$$" . 2>/dev/null || go build -o "$B/verifmc.$1.$$" . ; }) ; then
  echo "build failed"
  exit 2
fi
if [ "$1" = C19 ] ; then
  (cd /repo && go build -o "$B/tsh.$$" . ) || { echo "build failed"; exit 2; }
  export VERIF_TSH="$B/tsh.$$"
fi
if [ "$1" = C14 ] && ./mapctl.sh "$B/mapctl.$$" ; then export VERIF_MAPBIN="$B/mapctl.$$"; fi
"$B/verifmc.$1.$$" "$1" "${2:-${VERIF_TIER:-quick}}"
rc=$?
if [ $rc -gt 1 ] ; then
  # the runtime ended the process (e.g. maps shared by two transpilations): once more, one transpilation at a time
  left=$((800-SECONDS)); [ "${2:-${VERIF_TIER:-quick}}" = quick ] && [ $left -gt 240 ] && left=240
  [ -n "$VERIF_BUDGET" ] && [ "$VERIF_BUDGET" -lt $left ] && left=$VERIF_BUDGET
  [ $left -gt 20 ] && { VERIF_SERIAL=1 VERIF_BUDGET=$left "$B/verifmc.$1.$$" "$1" "${2:-${VERIF_TIER:-quick}}"; rc=$?; }
fi
rm -f "$B/verifmc.$1.$$" "$B/mapctl.$$" "$B/tsh.$$"
exit $rc
