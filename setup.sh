#!/bin/bash
# Nothing has to be built: the verifier is Python run by python3-vt (z3, cvc5 APIs).
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3, cvc5; print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__ if hasattr(cvc5, '__version__') else '')"
test -x /opt/venv/bin/python
mkdir -p evidence replays
echo "setup ok"
