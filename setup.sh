#!/bin/bash
# Nothing to compile: gpkit and the explorers are pure Python. Confirms that the interpreter and gpkit load.
cd "$(dirname "$0")" || exit 3
unset PYTHONPATH
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "from mc import env, core; print('gpkit', env.gpkit.__version__, 'loaded from', env.REPO)"
