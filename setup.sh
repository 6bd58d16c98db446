#!/bin/sh
# nothing to build: the checks are Python and compile /repo's sources themselves
exec /opt/venv/bin/python -c "import sympy, qrules, jax, tensorwaves, ampform"
