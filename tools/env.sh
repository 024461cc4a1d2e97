export HOME=/root RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true SKIP_PROTO_GEN=1 RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER=
export RUSTFLAGS="--cap-lints=allow -Clink-arg=-fuse-ld=lld" CARGO_TARGET_DIR=/verif/.work/target CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
