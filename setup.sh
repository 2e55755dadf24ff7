#!/bin/bash
# Installs the Python packages of the harness (offline, from the local wheels)
# into /verif/.deps.  The code under test is imported from /repo/src directly.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
if ! PYTHONPATH=.deps "$PY" -c 'import hypothesis, yaml' 2>/dev/null; then
    "$PY" -m pip install -q --no-index --find-links /opt/veriftools/wheels \
        --target .deps hypothesis pyyaml || echo "using the preinstalled packages"
fi
mkdir -p evidence
"$PY" -c '
import sys; sys.path.insert(0, "."); import vp.env
import hypothesis, yaml, ConfigSpace
print("hypothesis", hypothesis.__version__, "yaml", yaml.__version__, ConfigSpace.__file__)'
