#!/bin/bash
# Verbose development run: run_dev.sh ID [--cases N] [--seed S]
cd "$(dirname "${BASH_SOURCE[0]}")"
out=$(CARGO_NET_OFFLINE=true cargo build --release --offline 2>&1) || { echo "$out" | grep -E "^error" -A9 | head -40; exit 4; }
OPENBLAS_NUM_THREADS=1 ./target/release/glmcheck run "$@" -v --base /tmp/ev 2>/dev/null | grep -a -v "DSYTRS\|SSYTRS\|  labels" | cut -c1-1200
