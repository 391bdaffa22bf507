#!/bin/bash
# build.sh sym|native : mirrors /repo and builds the harnesses from it.
set -e
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export RUSTFLAGS="--cfg monolith_verif -Awarnings"
cd /verif
mkdir -p build/pwd build/bin
# With the server's program among the harnesses and with the model of tikv-client, or, should the tree not
# fit that, without one of them or both (a file in build/bin says what there is).
B=/verif/build/bin
with_program() {
    rm -f $B/$1 $B/$1.tikv
    # the replay has what the symbolic build has
    if [ $1 = sym ] || [ -e $B/sym.tikv ] || [ ! -e $B/sym.log ]; then
        python3 mirror.py
        if (cd $2; one --features bin,tikv) 2>$B/$1.log; then touch $B/$1 $B/$1.tikv; return; fi
        if (cd $2; one --features tikv) 2>>$B/$1.log; then touch $B/$1.tikv; return; fi
    fi
    python3 mirror.py less
    if (cd $2; one --features bin) 2>>$B/$1.log; then touch $B/$1; return; fi
    cd $2; one
}
case "$1" in
sym)
    one() { env PWD=/verif/build/pwd CARGO_TARGET_DIR=/verif/build/sym cargo rustc --release --offline -q "$@" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp; }
    with_program sym harness/sym
    ;;
native)
    one() { env PWD=/verif/build/pwd CARGO_TARGET_DIR=/verif/build/native cargo build --offline -q --bin replay "$@"; }
    with_program native harness/native
    ;;
engine)
    cd engine
    unset RUSTFLAGS
    CARGO_TARGET_DIR=/verif/build/engine cargo build --release --offline -q
    ;;
esac
