#!/bin/bash
# Run the check of one property: run.sh C01 [--replay FILE]
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PYTHONPATH=/repo/src:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export ZKAPAUTHORIZER_HYPOTHESIS_PROFILE=fast
unset PYTEST_CURRENT_TEST
exec /opt/venv/bin/python -m pbt.main "$@"
