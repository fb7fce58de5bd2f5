#!/bin/bash
# usage: run.sh <property-id> [--tier quick|thorough] [--only CASE]
# Runs one check against /repo's current working tree, from a scratch directory.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH=/opt/venv/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0
export PYTHONWARNINGS=ignore
export PYTHONPATH="$here${PYTHONPATH:+:$PYTHONPATH}"
export VERIF_HOME="$here"
export VERIF_REPO="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/peakmc.XXXXXXXX")" || exit 2
trap 'cd /; rm -rf -- "$scratch"' EXIT
cd "$scratch" || exit 2
/opt/venv/bin/python -m mc.main "$@"
rc=$?
exit $rc
