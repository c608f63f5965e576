#!/bin/bash
# run.sh <property id> [--thorough | --seed N | --runs N | --only RUN | --replay FILE | ...]
# Rebuilds the simulator from /repo's working tree and runs one property's check.
cd "$(dirname "$0")" || exit 2
ID=$1; shift
SERIAL=
case "$ID" in
  C01|C02|C03|C04|C08) BIN=ct-proof ;;
  C09|C10|C11|C12|C13|C14|C15) BIN=ct-tree ;;
  C05|C06|C07|C16|C17|C18) BIN=ct-pay ;;
  setup) BIN=all; SERIAL=1 ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
# code of these exists a second time, for the library built without its feature "parallel"
case "$ID" in
  C01|C07|C10|C12|C16|C17|C18) SERIAL=1 ;;
esac
export CARGO_NET_OFFLINE=true
mkdir -p sim/target sim/target-serial evidence replays
hash_src() {
  { find /repo/bulletproofs /repo/relations -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 \
      | sort -z | xargs -0 sha256sum
    sha256sum /repo/Cargo.toml
    find sim -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -not -path 'sim/target*' -print0 | sort -z | xargs -0 sha256sum
  } | sha256sum | cut -d' ' -f1
}
HASH=$(hash_src)
build() { # target dir, cargo flags, extra environment
  local t=$1 flags=$2; shift 2
  # file times do not survive copying: decide by content what has to be rebuilt
  if [ "$(cat "$t/.src-hash" 2>/dev/null)" != "$HASH" ]; then
    (cd sim && env "$@" cargo clean --offline --release --target-dir "../$t" -p bulletproofs -p relations -p ctsim >/dev/null 2>&1)
    rm -f "$PWD/$t/.src-hash"
  fi
  local what="--bin $BIN"; [ $BIN = all ] && what="--bins"
  (cd sim && env "$@" cargo build --offline --release $what $flags --target-dir "../$t" >"../$t/build.log" 2>&1) || return 1
  echo "$HASH" >"$t/.src-hash"
}
T=sim/target
S=sim/target-serial
if [ -n "$SERIAL" ]; then
  build $S --no-default-features _X=1 &
  PID=$!
fi
if ! build $T "" _X=1; then
  # the hooks may not fit a changed tree: build without them (fewer attacks, same oracles)
  echo "note: building without the hooks" >&2
  cp $T/build.log $T/build-hooks.log
  T=sim/target-nohooks
  mkdir -p $T
  if ! build $T "" RUSTFLAGS="--check-cfg cfg(curve_trees_sim)"; then
    [ -n "$SERIAL" ] && wait $PID
    tail -n 40 $T/build.log >&2
    echo "the simulator does not build against this tree" >&2
    exit 2
  fi
fi
if [ -n "$SERIAL" ]; then
  if wait $PID; then
    export CTSIM_SERIAL="$PWD/$S/release/$BIN"
  else
    echo "note: the build without threads fails" >&2
  fi
fi
[ $BIN = all ] && exit 0
ulimit -v 12000000 2>/dev/null
if [ "$1" = --replay ] && grep -q '^build serial' "$2" 2>/dev/null; then T=$S; fi
exec ./$T/release/$BIN "$ID" "$@"
