#!/bin/bash
# plant.sh ID [CHECK...]   verifies a planted bug in a scratch copy and runs the checks against it.
# Used while the machinery is developed; no check needs it.
HERE=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
S=$HERE/seeded/$ID
W=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$W"' EXIT
export HOME=/root TZ=UTC PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOTELEMETRY=off
cp -a /repo "$W/clean"; git -C "$W/clean" checkout -q -- .; cp -a "$W/clean" "$W/bug"; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
( cd "$W/bug" && git apply "$S/patch.diff" ) || { echo "PATCH DOES NOT APPLY"; exit 1; }
export GOFLAGS=-mod=mod
( cd "$W/bug" && go build ./... && go build -tags re2_wasm ./... ) || { echo "DOES NOT BUILD"; exit 1; }
if [ -z "$NOTEST" ]; then
  ( cd "$W/bug" && go test -vet=off -count=1 ./... ) > "$W/t1" 2>&1 &
  ( cd "$W/bug" && go test -vet=off -tags re2_wasm -count=1 ./... ) > "$W/t2" 2>&1 &
  wait
  if grep -E '^(--- FAIL|FAIL|panic)' "$W/t1" "$W/t2" | head -5 | grep .; then echo "TESTS FAIL"; fi
  for i in 1 2 3; do
    ( cd "$W/clean" && timeout 300 bash "$W/demo/demo.sh" ) > "$W/d1" 2>&1; r1=$?
    ( cd "$W/bug" && timeout 300 bash "$W/demo/demo.sh" ) > "$W/d2" 2>&1; r2=$?
    echo "demo: clean $r1, bug $r2"
    [ $r1 = 0 ] && [ $r2 != 0 ] || { echo "--- clean"; tail -5 "$W/d1"; echo "--- bug"; tail -5 "$W/d2"; }
  done
fi
for c in "$@"; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO="$W/bug" VSIM_WALL=${VSIM_WALL:-240} "$HERE/run.sh" check "$c" > "$W/c" 2>&1; r=$?
  echo "check $c: exit $r in $(( $(date +%s) - s )) s: $(grep -E '^VIOLATION' "$W/c" | head -3)"
  [ $r = 3 ] && tail -5 "$W/c"
  [ -n "$SHOW" ] && tail -30 "$W/c"
done
