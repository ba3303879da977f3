export RUSTUP_TOOLCHAIN=nightly-2026-05-18 CARGO_NET_OFFLINE=true
hb() { (cd /verif/harness/$1 && CARGO_TARGET_DIR=/verif/.build/$1 cargo build 2>&1 | grep -E "^(warning: unus|error)|^  *-->|^[0-9 ]*\|" ); }
