#!/bin/bash
# build.sh main|sse2|scalar... : builds the simulator around /repo's current working tree,
# once per parser build. Prints "name=path" of each executable on stdout.
. /opt/vp/env.sh || exit 3
cd "$(dirname "$(realpath "$0")")/sim" || exit 3
export CARGO_INCREMENTAL=0
# what the library is built from, by content (time stamps of a copied tree prove nothing)
sums() { (cd "$1" && find src certs Cargo.toml Cargo.lock build.rs .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum); }
stamp=$( (sums /repo; sums .; rustc -V) | sha256sum | cut -c1-32)
for b in "$@"; do
  (
    case $b in
      main) dir=target; export RUSTFLAGS="$MAIN_FLAGS"; set -- ;;
      sse2) dir=target-sse2; export RUSTFLAGS="$SSE2_FLAGS"; set -- ;;
      scalar) dir=target-scalar; export RUSTFLAGS="$MAIN_FLAGS"; set -- --no-default-features ;;
      *) exit 3 ;;
    esac
    mkdir -p $dir
    exec 9>$dir/.lock; flock 9
    if [ "$(cat $dir/.stamp 2>/dev/null)" != "$stamp" ]; then
      rm -f "$PWD/$dir/.stamp"
      [ -d $dir/release ] && cargo clean --offline --release --target-dir $dir -p tmi -p tmisim >/dev/null 2>&1
    fi
    cargo build --release --offline --target-dir $dir "$@" >$dir/build.log 2>&1 || { echo "build of the simulator ($b) failed:" >&2; grep -A12 '^error' $dir/build.log | head -60 >&2; exit 3; }
    echo "$stamp" >$dir/.stamp
  ) &
  pids="$pids $!"
done
rc=0
for p in $pids; do wait $p || rc=3; done
[ $rc = 0 ] || exit $rc
for b in "$@"; do
  case $b in main) d=target ;; *) d=target-$b ;; esac
  echo "$b=$PWD/$d/release/tmisim"
done
