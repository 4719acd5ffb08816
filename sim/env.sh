# sourced by the check scripts: how the simulated build is made
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh
export RUSTFLAGS="--cfg phonenumber_sim -C relocation-model=static -C force-frame-pointers=yes"
export CARGO_INCREMENTAL=0
SIM_TARGET=x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/sim/target
