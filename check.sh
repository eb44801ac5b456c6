#!/bin/bash
# Usage: check.sh ID [--replay FILE] [--runs N]     (VERIF_SEED, VERIF_TIER from the environment)
# Exit 0: held on everything explored; 1: VIOLATION line; anything else: the check itself failed.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
REPLAY=; EXTRA=()
while [ $# -gt 0 ]; do
  case $1 in
    --replay) REPLAY=$(readlink -f "$2"); shift 2;;
    *) EXTRA+=("$1"); shift;;
  esac
done
SEED=${VERIF_SEED:-1}; TIER=${VERIF_TIER:-quick}
case $SEED in ''|*[!0-9-]*) SEED=1;; esac
source "$V/build.sh" || exit 2
RACE=0
case $ID in C06|C07|C08|C09|C14) RACE=1;; esac
mkdir -p "$V/.build"
WORK=$(mktemp -d "$V/.build/run.XXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
build_sim $RACE "$WORK" || { echo "check error: build failed" >&2; exit 2; }
mkdir -p "$V/evidence" "$V/replays"
ARGS=(-mainbin "$BIN" -work "$WORK" -sites "$SITES" -known "$V/known_findings.txt")
[ $RACE = 1 ] && ARGS+=(-racebin "$RBIN")
if [ -n "$REPLAY" ]; then
  "$BIN" "${ARGS[@]}" -replay "$REPLAY"; exit $?
fi
"$BIN" "${ARGS[@]}" -prop "$ID" -tier "$TIER" -seed "$SEED" -evidence "$V/evidence/$ID.json" -replays "$V/replays" "${EXTRA[@]}"
rc=$?
[ $rc = 0 ] && [ -f "$V/known_findings.txt" ] && grep "^KNOWN-FINDING: property=$ID " "$V/known_findings.txt"
exit $rc
