#!/bin/bash
# run.sh <property>            run a check (VERIF_SEED, VERIF_TIER)
# run.sh --replay <file>       re-run one recorded case
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export TEV_DIR="$(cd "$(dirname "$0")" && pwd)"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER TEV_GUIDED
h="$TEV_DIR/harness"
log="$TEV_DIR/work/build-$$.log"
mkdir -p "$TEV_DIR/work"
# The guided build (coverage feedback from the code under test) is a second
# build, made meanwhile; C21..C25, C27 and C28 do not use it.
guided=
case "$1" in
C0[1-9]|C1[0-9]|C20|C26|C30|build) guided=1 ;;
esac
if [ -n "$guided" ]; then
  RUSTC_WRAPPER="$h/cov-rustc.sh" cargo build --offline --profile guided -q --manifest-path "$h/Cargo.toml" \
    --target-dir "$h/target-guided" >"$log.g" 2>&1 &
  gpid=$!
fi
# C24 runs on an unoptimised build of the code under test.
profile=release
[ "$1" = C24 ] && profile=plain
[ "$1" = --replay ] && head -c 400 "$2" | grep -q C24 && profile=plain
profile="${TEV_PROFILE:-$profile}"
cargo build --offline --profile $profile -q --manifest-path "$h/Cargo.toml" >"$log" 2>&1
rc=$?
if [ -n "$guided" ]; then
  wait $gpid
  if [ $? = 0 ]; then
    export TEV_GUIDED="$h/target-guided/guided/tev"
  else
    cat "$log.g" >&2
    echo "the guided build failed: running without it" >&2
  fi
  rm -f "$log.g"
fi
if [ $rc != 0 ]; then
  cat "$log" >&2; rm -f "$log"
  echo "build failed" >&2
  exit 2
fi
rm -f "$log"
bin="$h/target/$profile/tev"
[ "$1" = build ] && exit 0
if [ "$1" = "--replay" ]; then
  exec "$bin" replay "$2"
fi
limit=850; [ "$VERIF_TIER" = thorough ] && limit=14400
exec timeout -k 5 "${TEV_TIMEOUT:-$limit}" "$bin" run "$1"
