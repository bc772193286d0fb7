#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly. This only verifies that the interpreter and the tree are usable.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sim.repo, decoders, inference, protocol_meta, utils" >/dev/null
echo setup ok
