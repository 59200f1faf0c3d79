#!/bin/bash
# Builds what the checks need, so that they only have to rebuild what changed.
cd "$(dirname "$0")" && exec python3 - <<'PY'
import common
common.build_daemon()
common.build_crate("sim")
common.build_crate("peer")
import bb_contain
bb_contain.shim()
PY
