#!/bin/bash
# run.sh PROP [OUTFILE]: look for an input on which the code in /repo breaks a
# property. Writes the input to OUTFILE if one is found (exit 1), else exit 0.
# It decides nothing: it only turns a failed obligation into a failing input.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; out="${2:-/dev/stdout}"
repo="${GVC_REPO:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export TZ="${TZ:-Europe/Berlin}"
dir="$(mktemp -d)"; trap 'rm -rf "$dir"' EXIT
cp "$here/witness_test.go.txt" "$dir/zz_witness_test.go"
printf '{"Replace": {"%s/gitdiff/zz_witness_test.go": "%s/zz_witness_test.go"' "$repo" "$dir" > "$dir/ov.json"
# only the harness is compiled: the package's own tests are left out
for f in "$repo"/gitdiff/*_test.go; do
  [ -e "$f" ] && printf ', "%s": ""' "$f" >> "$dir/ov.json"
done
printf '}}' >> "$dir/ov.json"
secs=60; [ "$VERIF_TIER" = thorough ] && secs=120
[ -n "$WITNESS_SECS" ] && secs="$WITNESS_SECS"
export WITNESS_PROP="$prop" WITNESS_OUT="$dir/found" WITNESS_SECS="$secs" WITNESS_SEED="${VERIF_SEED:-1}"
cd "$repo" && go test -vet=off -count=1 -overlay "$dir/ov.json" -run '^TestWitness$' -timeout 190s ./gitdiff > "$dir/log" 2>&1
rc=$?
[ -n "$WITNESS_DEBUG" ] && cat "$dir/log" >&2
if [ -s "$dir/found" ]; then cat "$dir/found" > "$out"; exit 1; fi
# a crash of the test process that the harness could not report itself
if [ $rc -ne 0 ] && grep -q '^fatal error: \|^panic: ' "$dir/log"; then
  { echo "property $prop: the process crashed"; grep -m1 '^fatal error: \|^panic: ' "$dir/log"; } > "$out"; exit 1
fi
exit 0
