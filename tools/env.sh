# Build environment of the harness (sourced).
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_ROOT/target}" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg verif_hooks"
export RUSTC_WRAPPER="$VERIF_ROOT/tools/rustc_wrap.sh"
