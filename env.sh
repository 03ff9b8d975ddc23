export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${V:-/verif}/target"
export RUSTFLAGS="-W semicolon_in_expressions_from_macros -A warnings"
