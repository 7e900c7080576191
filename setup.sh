#!/bin/bash
# Nothing to build: the checks are Python and import /repo's PathLib directly.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/usr/local/bin/python3-vt -c 'import hypothesis, numpy; print("hypothesis", hypothesis.__version__)' 2>/dev/null \
  || python3-vt -c 'import hypothesis, numpy; print("hypothesis", hypothesis.__version__)'
