#!/bin/bash
# Nothing to build: the harness is Python and imports /repo directly.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -m compileall -q vendor >/dev/null 2>&1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from harness import core
core.setup_imports()
import hypothesis, refellips
print('hypothesis', hypothesis.__version__, 'refellips', refellips.__file__)"
