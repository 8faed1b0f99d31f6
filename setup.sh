#!/bin/bash
# nothing to install: checks build /repo's current tree themselves. Fails early if a tool is missing.
cd "$(dirname "$0")" && mkdir -p evidence build && command -v tlc gcc java >/dev/null && /opt/acados-env/venv/bin/python -c 'import casadi, numpy, scipy'
