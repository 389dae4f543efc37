#!/bin/bash
# build the harness, short error output (development helper)
export VERIF_ROOT=/verif; . /verif/tools/env.sh; cd /verif/${1:-harness}
cargo build --release --offline 2>&1 | grep -E '^error' -A9 | grep -vE '^ *\|$' | head -${2:-40}; exit ${PIPESTATUS[0]}
