#!/bin/bash
# Nothing to compile: the code under test and the checks are Python. Verify that everything needed is in place.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${REPO:-/repo}:$HERE:$HERE/vendor" MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "
import hypothesis, sortedcontainers, timeseria, harness.core
print('hypothesis', hypothesis.__version__, '| timeseria from', timeseria.__path__[0])"
