#!/bin/bash
# check.sh <ID> [thorough] | check.sh replay <file>: build the machinery against /repo's working tree, run one check
set -u
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p target evidence replays
build() { # crate
  cargo build --release --offline --quiet --manifest-path "$1/Cargo.toml" 2>"target/$1.build.log"
}
nobuild() { # crate
  grep -E '^error' -A8 "target/$1.build.log" | head -40
  echo "check: the harness $1 does not build against /repo"
}
case "$1" in
  replay) id=$(grep -oE '"property": *"C[0-9]+"' "$2" | grep -oE 'C[0-9]+') ;;
  *) id=$1 ;;
esac
case "$id" in
  C12 | C13 | C14 | C15) crate=shapes ;;
  C22) crate=accept ;;
  C21) crate=pyref ;;
  *) crate=mc ;;
esac
if ! build $crate; then
  nobuild $crate
  # generated definitions that no longer compile, while hand-written ones do, break the properties about them
  if [ $crate = shapes ] && build mc; then
    cp target/shapes.build.log "replays/$id-build.log"
    echo "violating case: well-formed definitions do not compile (replays/$id-build.log)"
    echo "VIOLATION property=$id replay=$PWD/replays/$id-build.log"
    exit 1
  fi
  exit 3
fi
if [ "$1" = replay ]; then
  exec target/release/$crate replay "$2"
fi
target/release/$crate check "$id"
rc=$?
# a crash of the code under test (stack overflow, abort, illegal instruction, bad memory) is a violation too
case $rc in 132 | 134 | 135 | 136 | 139)
  echo "{\"property\":\"$id\",\"msg\":\"the process running the check died with status $rc\"}" >"replays/$id-crash.json"
  echo "violating case: the code under test ended the process (status $rc)"
  echo "VIOLATION property=$id replay=$PWD/replays/$id-crash.json"
  rc=1 ;;
esac
exit $rc
