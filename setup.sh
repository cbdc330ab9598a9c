#!/bin/bash
# Nothing to build: check that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=/repo/src:$PWD PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import hypothesis, pbt.core, pbt.zk; print('ok', hypothesis.__version__)"
