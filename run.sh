#!/bin/bash
# run.sh ID        builds what the check needs from /repo's working tree and runs it
# run.sh build     builds everything
# run.sh replay ID FILE
# Environment: VERIF_SEED, VERIF_TIER (quick or thorough).
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
REPO=${HARNESS_REPO:-/repo}
T=$VERIF_DIR/target

quietly() {
    local log
    log=$("$@" 2>&1) || { printf '%s\n' "$log"; echo "build failed: $*"; exit 2; }
}
build_main() { (cd harness && CARGO_TARGET_DIR=$T/main RUSTC_WRAPPER=$VERIF_DIR/harness/rustc-wrap.sh quietly cargo build --offline --locked) || exit 2; }
build_det() { (cd harness && CARGO_TARGET_DIR=$T/det quietly cargo build --offline --locked --features deterministic) || exit 2; }
build_cli() { CARGO_TARGET_DIR=$T/cli quietly cargo build --manifest-path "$REPO/Cargo.toml" --features cli --bin jotdown --offline --locked; }

# do not trust timestamps: start over when the sources are not those of the last build
now=$(cd "$REPO" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$T/sources" 2>/dev/null)" != "$now" ]; then
    for d in main det cli; do [ -d "$T/$d" ] && cargo clean --offline --manifest-path harness/Cargo.toml --target-dir "$T/$d" >/dev/null 2>&1; done
    mkdir -p "$T" && printf '%s\n' "$now" >"$T/sources"
fi

id=${1:-}
case $id in
build)
    build_main; build_det; build_cli
    exit 0 ;;
replay)
    build_main
    exec "$T/main/debug/harness" replay "$2" "$3" ;;
C06) build_main; build_det; export HARNESS_DET=$T/det/debug/harness ;;
C27) build_main; build_cli; export HARNESS_CLI=$T/cli/debug/jotdown ;;
C[0-9][0-9]) build_main ;;
*) echo "usage: run.sh ID | build | replay ID FILE"; exit 2 ;;
esac
exec "$T/main/debug/harness" check "$id"
