#!/bin/bash
# check.sh <property> [tier]: decide one property on /repo's current source by static analysis.
id="$1"; export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
bin="$here/bin/ctngcheck"
mkdir -p "$here/bin" "$here/evidence"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -name '*.go' -newer "$bin" -print -quit)" ]; then
  (cd "$here/analyzer" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || {
    echo "cannot build the analyzer"; exit 2; }
fi
[ "$id" = build ] && exit 0
export CTNG_VERIF="$here" CTNG_REPO="${CTNG_REPO:-/repo}"
timeout 850 "$bin" "$id"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "analysis of $id ended with status $rc: undecided"
  exit 2
fi
exit $rc
