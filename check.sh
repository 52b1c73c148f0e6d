#!/bin/bash
# check.sh <property> quick|thorough : exit 0 held, 1 VIOLATION, anything else: the check itself failed.
P=${1:?usage: check.sh PROPERTY [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
V=$(dirname "$(realpath "$0")")
cd "$V" || exit 3
case $P in C02|C03|C16) builds="main sse2 scalar" ;; *) builds=main ;; esac
exes=$(./build.sh $builds) || exit 3
case $TIER in
  quick) runs=${SIM_RUNS:-400000}; secs=${SIM_SECS:-40} ;;
  *) runs=${SIM_RUNS:-1000000000}; secs=${SIM_SECS:-600} ;;
esac
mkdir -p evidence replays
# shellcheck disable=SC2086
sim/target/release/tmisim check "$P" "$TIER" "$runs" "$secs" known-findings.txt "$V" $exes
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 3 ;; esac
