#!/bin/bash
# revert.sh COMMIT CHECK...   runs checks against a copy of /repo without one of its fix commits.
HERE=$(cd "$(dirname "$0")/.." && pwd)
C=$1; shift
W=$(mktemp -d /tmp/revert.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/r"
if ! git -C "$W/r" revert -n "$C" >/dev/null 2>&1; then
  git -C "$W/r" revert --abort 2>/dev/null; git -C "$W/r" checkout -q --detach "$C" && git -C "$W/r" revert -n "$C" >/dev/null 2>&1 || { echo "cannot revert $C"; exit 1; }
  echo "(at $C itself, later fixes missing too)"
fi
for c in "$@"; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO="$W/r" VSIM_WALL=${VSIM_WALL:-240} "$HERE/run.sh" check "$c" > "$W/c" 2>&1; r=$?
  echo "revert $C check $c: exit $r in $(( $(date +%s) - s )) s: $(grep -E '^VIOLATION' "$W/c" | head -3)"
  [ $r = 3 ] && tail -5 "$W/c"
  [ -n "$SHOW" ] && tail -30 "$W/c"
done
