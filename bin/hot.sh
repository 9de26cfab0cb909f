#!/bin/bash
# hot.sh <ID>|setup : monitors of hotmeal and hotmeal-server
. "$(dirname "$0")/common.sh"
cd /verif/hot || exit 2
id=$1
mkdir -p target "$VERIF_OUT/out"
fresh /verif/hot/target "hotmeal hotmeal-server hotmeal-wasm cinereus hotmon" hotmeal hotmeal-server hotmeal-wasm cinereus
build target/build.log build --release --offline -p hotmon
if [ "$id" = H16 ] || [ "$id" = setup ]; then
  fresh /verif/hot/target/traced "hotmeal hotmeal-server hotmeal-wasm cinereus hotmon" hotmeal hotmeal-server hotmeal-wasm cinereus
  build target/build-traced.log build --release --offline -p hotmon --features trace --target-dir target/traced
  export HOTMON_TRACED=/verif/hot/target/traced/release/hotmon
fi
if [ "$id" = H22 ] || [ "$id" = setup ]; then
  fresh /verif/hot/target/live "hotmeal hotmeal-server hotmeal-server-roam hotmeal-wasm hotmeal-wasm-live cinereus hotmon" hotmeal hotmeal-server hotmeal-wasm cinereus
  build target/build-live.log build --release --offline -p hotmon --features live --target-dir target/live
fi
if [ "$id" = H17 ]; then
  # the standard library is built with the sanitizer too, so that it neither hides nor invents races
  T=x86_64-unknown-linux-gnu
  for s in thread address; do
    fresh /verif/hot/target/$s "hotmeal hotmeal-server hotmeal-wasm cinereus hotmon" hotmeal hotmeal-server hotmeal-wasm cinereus
    RUSTFLAGS="-Zsanitizer=$s -Cforce-frame-pointers=yes" timeout 700 cargo +nightly build --release --offline -Zbuild-std --target $T \
      -p hotmon --target-dir /verif/hot/target/$s >target/build-$s.log 2>&1 &
  done
  wait
  export HOTMON_TSAN=/verif/hot/target/thread/$T/release/hotmon HOTMON_ASAN=/verif/hot/target/address/$T/release/hotmon
  for s in thread address; do
    if ! tail -1 target/build-$s.log | grep -q Finished; then
      tail -30 target/build-$s.log >&2; echo "sanitizer build failed: no verdict" >&2; exit 2
    fi
  done
  fresh /verif/hot/target/miri "hotmeal hotmeal-server hotmeal-wasm cinereus hotmon" hotmeal hotmeal-server hotmeal-wasm cinereus
fi
[ "$id" = setup ] && exit 0
bin=./target/release/hotmon
[ "$id" = H22 ] && bin=./target/live/release/hotmon
$bin check "$id"
rc=$?
case $rc in 0|1) exit $rc ;; *) echo "monitor ended with $rc: no verdict" >&2; exit 2 ;; esac
