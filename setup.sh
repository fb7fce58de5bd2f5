#!/bin/bash
# nothing to build: check that the interpreter and the libraries are there
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c 'import numpy, hwtypes, magma, pysmt; import mc.lib'
