#!/bin/sh
# Nothing to build: the checks are Python run by /opt/venv/bin/python with the z3/cvc5
# bindings of /opt/veriftools/pyvenv.  Verify that both import.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, z3, cvc5
print('numpy', numpy.__version__, 'z3', z3.get_version_string())
PY
