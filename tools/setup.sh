#!/bin/bash
# Setup of the checks: nothing is built, only the tools and the specification are checked.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c 'import numpy, scipy'
command -v tlc > /dev/null
printf '%s\n' spec/*.qnt | xargs -P 8 -I{} quint typecheck {} > /dev/null
mkdir -p evidence
