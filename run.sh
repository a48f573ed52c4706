#!/bin/bash
# run.sh ID TIER   -- build the harness against /repo's working tree and decide one property.
# run.sh build     -- only build.
# run.sh replay FILE -- re-run the minimised case of a replay file.
# Exit: 0 held, 1 violation (with a VIOLATION line), anything else: trouble with the check itself.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export OPENBLAS_NUM_THREADS=1 LC_ALL=C
# Optional: other places for the build output and the evidence (for working on several trees).
target="${GLMCHECK_TARGET:-$here/harness/target}"
base="${GLMCHECK_BASE:-$here}"
seed="${VERIF_SEED:-1}"
mkdir -p "$base/evidence"
log="$base/evidence/build.log"
if ! (cd "$here/harness" && CARGO_TARGET_DIR="$target" cargo build --release --offline --locked) >"$log" 2>&1; then
    tail -n 40 "$log"
    echo "ERROR: the harness does not build against /repo"
    exit 4
fi
bin="$target/release/glmcheck"
case "$1" in
build) exit 0 ;;
replay)
    "$bin" replay "$2" 2>/dev/null | grep -v -a -E 'On entry to +[A-Z0-9]+ +parameter number'
    exit "${PIPESTATUS[0]}"
    ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
"$bin" run "$1" --tier "$tier" --seed "$seed" --base "$base" 2>/dev/null | grep -v -a -E 'On entry to +[A-Z0-9]+ +parameter number'
exit "${PIPESTATUS[0]}"
