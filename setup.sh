#!/bin/bash
# nothing to build: the checks are Python and run the code from /repo's working tree directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONPATH=. /opt/venv/bin/python -c "import numpy, scipy, vlib.compat, vlib.harness" || exit 1
chmod +x check
echo ready
