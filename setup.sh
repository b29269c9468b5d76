#!/bin/sh
# Nothing to compile: check that the interpreter and libraries the checks need are present.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo python3-vt -c "
import sys; sys.path.append('/opt/venv/lib/python3.12/site-packages')
import hypothesis, big, packaging.version, dateutil, regex, inflect
print('setup ok: hypothesis', hypothesis.__version__)"
