#!/bin/bash
# render a unit and verify it (development aid): v.sh UNIT [verus options]
u=$1; shift; mkdir -p /tmp/v; cd "$(dirname "$0")/.."
python3 tools/rx.py verus/$u.rs > /tmp/v/$u.rs || exit 1
cd /tmp/v && verus $u.rs --crate-type=lib "$@"
