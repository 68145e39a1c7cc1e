export RUSTUP_TOOLCHAIN=1.91.0 CARGO_NET_OFFLINE=true
bsim() { (cd /verif/sim && CARGO_TARGET_DIR=/verif/target/sim cargo build --release --offline "$@"); }
bprog() { (cd /verif/prog && RUSTC_WRAPPER=/verif/prog/rustc-wrapper.sh CARGO_TARGET_DIR=/verif/target/prog cargo build --release --offline -p progso "$@"); }
