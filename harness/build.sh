#!/bin/bash
# build.sh CONFIG...  (nb: nightly, unstable+std_io; sh: stable, hashbrown map; ss: stable, std map + std_io)
cd "$(dirname "$0")" || exit 2
W=${VERIF_WORK:-/verif/work}
one() {
  case $1 in
    nb*) tc=nightly-2024-11-07 ft=unstable,stdio ;;
    sh*) tc=stable ft=hash ;;
    ss*) tc=stable ft=hash,stdio ;;
  esac
  case $1 in *r) prof="--profile rel" ;; *) prof="" ;; esac
  RUSTUP_TOOLCHAIN=$tc CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/target-$1 RUSTC_WRAPPER= RUSTFLAGS="-Awarnings" CARGO_TERM_COLOR=never \
    cargo build --offline --locked -q $prof --features $ft >$W/build-$1.log 2>&1
}
mkdir -p $W
rc=0; pids=()
for c in "$@"; do one $c & pids+=($!); done
for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || { for c in "$@"; do tail -n 40 $W/build-$c.log; done; }
exit $rc
