#!/bin/bash
# Nothing to compile; verify that the interpreter, jax and z3 are importable offline.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "import symfm; import jax, z3, fmmax; print('ok', jax.__version__, z3.get_version_string(), fmmax.__file__)"
