#!/bin/bash
# RUSTC_WRAPPER of build.sh: pica's own crates get sim/simstd as `std`.
rustc=$1
shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case $name in
  pica | sim_pica | sim_http | sim_lib) set -- "$@" --extern "std=$SIMSTD/libsimstd.rlib" ;;
  *) exec "$rustc" "$@" ;;
esac
exec "$rustc" "$@" -L "dependency=$SIMSTD"
