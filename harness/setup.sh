#!/bin/bash
# Nothing to build: confirm that the harness and the project import together.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src:harness /opt/venv/bin/python -c "
import core, glimpse
print('hypothesis', core.hypothesis.__version__, 'glimpse', glimpse.__file__)"
