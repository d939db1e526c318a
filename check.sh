#!/bin/bash
# check.sh <ID> <quick|thorough> [--only KEY]: build the explorer against /repo's current tree, run one property.
# exit 0: held on everything explored; 1: violation (a VIOLATION line was printed); 2: no answer (build failure).
set -u
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-quick}"; shift; shift || true
export VERIF_DIR="$V" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p "$V/evidence"
if [ "$ID" = C34 ]; then exec timeout -k 5 "$([ "$TIER" = thorough ] && echo 14000 || echo 850)" python3 "$V/py/run.py" "$ID" "$TIER" "$@"; fi
crate=mc
case "$ID" in C27) crate=mcconc;; C28) crate=mcdf;; esac
log="$V/evidence/build-$ID.log"
# cargo only rebuilds what changed; sources are the tree in /repo
(cd "$V/$crate" && cargo build --release --offline --locked >"$log" 2>&1)
if [ $? -ne 0 ]; then
  echo "BUILD FAILED for $ID:"; grep -E "^(error|warning: unused)" -A6 "$log" | tail -40; exit 2
fi
LIM=$([ "$TIER" = thorough ] && echo 14000 || echo 700)
timeout -k 5 "$LIM" "$V/$crate/target/release/$crate" "$ID" "$TIER" "$@"
rc=$?
case $rc in
  0|1|2) exit $rc;;
  132|133|134|136|139)
    # the process itself died: undefined behaviour or an abort inside the code under test
    R="$V/evidence/replay-$ID.json"
    echo "[{\"message\": \"the explorer was killed by signal $((rc-128)) while executing the code under test\", \"replay\": \"$V/check.sh $ID $TIER\"}]" >"$R"
    echo "the code under test killed the explorer (signal $((rc-128)))"
    echo "VIOLATION property=$ID replay=$R"; exit 1;;
  *) echo "no answer: explorer exit status $rc"; exit 2;;
esac
