#!/bin/bash
# cin.sh <ID>|setup : monitors of the tree diff engine (cinereus)
. "$(dirname "$0")/common.sh"
cd /verif/cin || exit 2
id=$1
mkdir -p target "$VERIF_OUT/out"
fresh /verif/cin/target "cinereus cinmon" cinereus
build target/build.log build --release --offline
if [ "$id" = C11 ] || [ "$id" = setup ]; then
  fresh /verif/cin/target/featured "cinereus cinmon" cinereus
  build target/build-featured.log build --release --offline --features stats,trace --target-dir target/featured
  export CINMON_FEATURED=/verif/cin/target/featured/release/cinmon
fi
if [ "$id" = C15 ]; then
  # the standard library is built with the sanitizer too, so that it neither hides nor invents races
  T=x86_64-unknown-linux-gnu
  for s in thread address; do
    fresh /verif/cin/target/$s "cinereus cinmon" cinereus
    RUSTFLAGS="-Zsanitizer=$s -Cforce-frame-pointers=yes" timeout 700 cargo +nightly build --release --offline -Zbuild-std --target $T \
      --features stats,trace --target-dir /verif/cin/target/$s >target/build-$s.log 2>&1 &
  done
  wait
  export CINMON_TSAN=/verif/cin/target/thread/$T/release/cinmon CINMON_ASAN=/verif/cin/target/address/$T/release/cinmon
  for s in thread address; do
    if ! tail -1 target/build-$s.log | grep -q Finished; then
      tail -30 target/build-$s.log >&2; echo "sanitizer build failed: no verdict" >&2; exit 2
    fi
  done
  fresh /verif/cin/target/miri "cinereus cinmon" cinereus
fi
[ "$id" = setup ] && exit 0
./target/release/cinmon check "$id"
rc=$?
case $rc in 0|1) exit $rc ;; *) echo "monitor ended with $rc: no verdict" >&2; exit 2 ;; esac
