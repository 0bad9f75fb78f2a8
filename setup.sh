#!/bin/bash
# nothing to build: the checks execute /repo's source symbolically; verify that the interpreters and the solver are there
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import numpy, scipy, bilby"
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); import symx.prove as p; print('z3', p.z3.get_version_string())"
