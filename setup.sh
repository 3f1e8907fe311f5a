#!/bin/bash
# nothing to build: the verifier runs from source. Checks that its parts are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, cvc5, numpy, scipy, shapely
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__)"
