#!/bin/bash
# run.sh <ID> | replay <file>: build the harness against /repo's working tree and run one check.
# Exit 0: held. Exit 1 + VIOLATION line: broken. 2: build or harness error. 3: no answer in time.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
LOG=$(mktemp) || exit 2
trap 'rm -f "$LOG"' EXIT
# A tree whose files carry old timestamps must be rebuilt as well
rm -rf "$PWD"/target/release/.fingerprint/rqrr-*
if ! cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir "$PWD/target" >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2
  echo "BUILD-ERROR: /repo or the harness does not build" >&2
  exit 2
fi
if [ "$1" = C27 ] || [ "$1" = build ] || { [ "$1" = replay ] && grep -q '"property":"C27"' "$2"; }; then
  if ! cargo build --release --offline --manifest-path nofeat/Cargo.toml --target-dir "$PWD/target" >"$LOG" 2>&1; then
    tail -40 "$LOG" >&2
    echo "BUILD-ERROR: /repo does not build without its image feature" >&2
    exit 2
  fi
fi
case "$1" in
  build) exit 0 ;;
  replay) exec "$PWD/target/release/rqrr-verif" replay "$2" ;;
  *) "$PWD/target/release/rqrr-verif" run "$1" ;;
esac
