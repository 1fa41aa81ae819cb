#!/bin/bash
# Builds the simulator (with /repo's current tree inside) and the checker, offline.
# Output goes to $VERIF_BUILD (default /verif/.build), never into /repo.
here=$(cd "$(dirname "$0")" && pwd)
out=${VERIF_BUILD:-$here/.build}
mkdir -p "$out"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
# pica's own crates are compiled against sim/simstd, whose locks and atomics the
# simulator schedules; the hash makes cargo rebuild them when it changes.
hash=$(cat "$here/sim/simstd/lib.rs" "$here/sim/rustc-wrap.sh" | sha256sum | cut -c1-12)
export SIMSTD="$out/simstd-$hash"
if [ ! -e "$SIMSTD/libsimstd.rlib" ]; then
  mkdir -p "$SIMSTD"
  (cd "$here/sim" && rustc --edition 2021 --crate-type rlib --crate-name simstd -O simstd/lib.rs --out-dir "$SIMSTD") >"$out/simstd.log" 2>&1 ||
    { grep -E "^error" -A12 "$out/simstd.log" | head -60 >&2; exit 2; }
fi
sim() {
  (cd "$here/sim" && RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" RUSTFLAGS="--cfg simstd_$hash" cargo build --offline --quiet --target-dir "$out/sim") && return
  # What the shim of std does not offer: build without preemption inside blocking sections.
  echo "building without sim/simstd"
  (cd "$here/sim" && cargo build --offline --quiet --target-dir "$out/sim")
}
sim >"$out/sim.log" 2>&1 &
a=$!
(cd "$here/sim/simcheck" && cargo build --offline --quiet --release --target-dir "$out/simcheck") >"$out/simcheck.log" 2>&1 &
b=$!
rc=0
wait $a || { rc=2; grep -E "^error" -A12 "$out/sim.log" | head -60 >&2; }
wait $b || { rc=2; grep -E "^error" -A12 "$out/simcheck.log" | head -60 >&2; }
exit $rc
