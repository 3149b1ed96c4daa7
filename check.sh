#!/bin/bash
# check.sh build          builds the checks against /repo's working tree
# check.sh run <ID>       decides one property (VERIF_TIER, VERIF_SEED)
# check.sh replay <FILE>  runs a replay file again
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export YV_ROOT="$PWD"
mkdir -p evidence replays
build() {
  if ! out=$(cd harness && cargo build --release --offline --locked 2>&1); then
    echo "$out" | tail -40
    echo "ERROR the checks do not build against /repo"
    exit 2
  fi
}
bin=harness/target/release/yvcheck
case "$1" in
  build) build ;;
  run)
    build
    # a runaway allocation ends the worker instead of the sandbox
    ulimit -v 12582912
    ulimit -c 0
    rm -f "evidence/$2.json"
    "$bin" run "$2"
    ;;
  replay)
    build
    ulimit -v 12582912
    ulimit -c 0
    "$bin" replay "$2"
    ;;
  *) echo "usage: check.sh build | run ID | replay FILE"; exit 2 ;;
esac
