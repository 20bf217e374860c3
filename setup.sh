#!/bin/bash
# nothing to compile: the checks run /repo's working tree directly
set -e
cd "$(dirname "$0")"
[ -x /opt/venv/bin/python ]
/opt/venv/bin/python -c "import numpy, scipy, click, clasp"
mkdir -p evidence replay
