#!/usr/bin/env bash
# Builds the simulator against /repo's current working tree (hooks on) and runs it.
#   check.sh build | check.sh <property> | check.sh replay <file> | check.sh log <property> <run>
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"; export VERIF_DIR
REPO="${SIM_REPO:-/repo}"
export RUSTUP_TOOLCHAIN="${SIM_TOOLCHAIN:-1.70.0}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
cd "$VERIF_DIR/sim" || exit 2
T="$VERIF_DIR/sim/target"; mkdir -p "$T"
build() {
    # Never trust time stamps: what the compiler would read decides whether to rebuild.
    local h
    h=$( { (cd "$REPO" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum);
           (cd "$VERIF_DIR/sim" && find src vendor .cargo Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum); } | sha256sum | cut -d' ' -f1)
    if [ -x "$T/release/orchard-sim" ] && [ "$(cat "$T/inputs.sha256" 2>/dev/null)" = "$h" ]; then return 0; fi
    cargo clean --release --offline -p orchard -p orchard-sim >/dev/null 2>&1
    if ! cargo build --release --offline --locked >"$T/build.log" 2>&1; then
        grep -E "^error" -A8 "$T/build.log" | head -80 >&2; tail -3 "$T/build.log" >&2; echo "build failed" >&2; return 1
    fi
    echo "$h" >"$T/inputs.sha256"
}
exec 9>"$T/lock"; flock 9
build || exit 2
flock -u 9
case "${1:-}" in
    build) exit 0 ;;
    replay|log) exec "$T/release/orchard-sim" "$@" ;;
    *) exec "$T/release/orchard-sim" check "$1" ;;
esac
