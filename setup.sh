#!/bin/bash
# Builds the bitcode reader and the table of C prototypes from the committed files.
set -e
cd "$(dirname "$0")"
exec python3 - <<'PY'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import common, catalog
common.ensure_tools()
catalog.prototypes(common.BUILD)
print("tools ready")
PY
