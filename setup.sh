#!/bin/bash
# Nothing to build: check that the interpreter and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import numpy, scipy, torch, pymatgen.core, ramannoodle"
