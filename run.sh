#!/bin/bash
# run.sh <property> <quick|thorough> [extra harness flags]
# Instruments and builds the harness against /repo's current working tree, runs one check.
set -u
PROP=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null || shift $#
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && { export PATH=$d:$PATH; break; }; done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=${CGO_ENABLED:-1}
W=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
MODE=plain; RACE=0
case $PROP in C02|C14|C15) MODE=sched;; esac
case $PROP in C02|C14|C15) RACE=1;; esac
(cd "$HERE/tools/instr" && go build -o "$W/instr" .) || { echo "instr build failed"; exit 2; }
build() { # mode outdir bin flags...
  local mode=$1 ov=$2 bin=$3; shift 3
  local f=""; [ $mode = sched ] && f=-sched
  "$W/instr" -repo "$REPO" -shim "$HERE/shim" -out "$ov" $f || return 1
  (cd "$HERE/mc" && go build -buildvcs=false -overlay "$ov/overlay.json" "$@" -o "$bin" .)
}
if ! build $MODE "$W/ov" "$W/mc" 2>"$W/err"; then
  if [ $MODE = sched ] && build plain "$W/ov" "$W/mc" 2>"$W/err2"; then
    echo "note: schedule instrumentation did not build; running without it"; head -5 "$W/err"; MODE=plain
  else
    cat "$W/err" "$W/err2" 2>/dev/null; echo "build failed"; exit 2
  fi
fi
RB=""
if [ $RACE = 1 ]; then
  if build plain "$W/ovr" "$W/mcrace" -race 2>"$W/err3"; then RB="$W/mcrace"; else echo "note: race build failed"; head -3 "$W/err3"; fi
fi
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
mkdir -p "$HERE/evidence"
"$W/mc" -prop "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -evidence "$HERE/evidence" -findings "$HERE/known_findings.txt" -instr "$W/ov/report.json" -race "$RB" "$@"
