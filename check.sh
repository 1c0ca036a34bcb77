#!/bin/bash
# check.sh <ID>: builds the harness against /repo's working tree and runs one check.
VERIF=$(dirname "$(realpath "$0")")
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export MC_VERIF=$VERIF
export CARGO_TARGET_DIR=${MC_TARGET_DIR:-$VERIF/target}
mkdir -p "$VERIF/evidence"
cd "$VERIF/harness" || exit 2
if ! cargo build --offline --locked -q 2>"$VERIF/evidence/build.log"; then
  cargo build --offline --locked 2>&1 | grep -E "^error|-->" | head -40
  echo "harness build failed"
  exit 2
fi
export MC_CLI_DIR=$CARGO_TARGET_DIR/cli/debug
if [ "$1" = C27 ] || [ "$1" = C36 ] || [ "$1" = replay ]; then
  # the programs, as the repository builds them
  # Cargo.lock is ignored by git
  [ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock 2>/dev/null
  if ! (cd /repo && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cli cargo build --offline -q -p ssbh_lib_json -p ssbh_data_json -p ssbh_test) 2>"$VERIF/evidence/build.log"; then
    grep -E "^error|-->" "$VERIF/evidence/build.log" | head -40
    echo "building the programs failed"
    exit 2
  fi
fi
export MC_VARIANTS=$CARGO_TARGET_DIR/variants
if [ "$1" = C39 ] || { [ "$1" = replay ] && grep -q C39 "$2"; }; then
  # the library in every combination of its features, in four folders at the same time
  rm -rf "${MC_VARIANTS:?}/bin"
  mkdir -p "$MC_VARIANTS/bin"
  build() { # folder, combinations
    local d=$MC_VARIANTS/$1 f
    shift
    for f in "$@"; do
      if (cd "$VERIF/variants" && CARGO_TARGET_DIR=$d cargo build --offline --locked -q --features "${f#none}") 2>"$MC_VARIANTS/bin/$f.all"; then
        cp "$d/debug/variant" "$MC_VARIANTS/bin/$f"
      elif grep -q "could not compile .\(ssbh\|variant\)" "$MC_VARIANTS/bin/$f.all"; then
        grep -E -A6 "^error" "$MC_VARIANTS/bin/$f.all" | head -40 >"$MC_VARIANTS/bin/$f.log"
      else
        cat "$MC_VARIANTS/bin/$f.all"
        touch "$MC_VARIANTS/bin/broken"
      fi
    done
  }
  build 1 none strum arbitrary &
  build 2 serde serde,strum serde,arbitrary &
  build 3 serde_hex serde_hex,strum serde_hex,arbitrary &
  build 4 serde,strum,arbitrary serde_hex,strum,arbitrary strum,arbitrary &
  wait
  if [ -f "$MC_VARIANTS/bin/broken" ]; then
    echo "building the variants failed"
    exit 2
  fi
  MC_VARIANTS=$MC_VARIANTS/bin
fi
exec "$CARGO_TARGET_DIR/debug/mc" "$@"
