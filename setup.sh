#!/bin/bash
# Nothing to build: the explorer is plain Python and imports jaxfg from /repo at run time.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import json, importlib
for check in json.load(open("MANIFEST.json"))["checks"]:
    importlib.import_module("mc.checks." + check["property"].lower())
import jax, jaxlie, jax_dataclasses, scipy, sksparse.cholmod
print("ready")
PY
