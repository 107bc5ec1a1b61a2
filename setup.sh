#!/bin/sh
# nothing to build: the verifier is plain Python run by the repository's interpreter; z3 comes from the tooling venv
cd "$(dirname "$0")" || exit 1
mkdir -p out evidence
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import pv.prover, pv.interp; print('ok')"
