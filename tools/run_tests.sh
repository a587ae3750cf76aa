#!/bin/bash
# run the stable tests in the current directory (a copy of /repo)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD" PYTHONHASHSEED=0
exec /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --confcutdir=tests/ebaybbn tests/ebaybbn
