#!/bin/bash
# Compiles the framework and checks the reference models against published vectors and OpenSSL.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
for f in mc/*.py mc/ref/*.py mc/checks/*.py; do
  /opt/venv/bin/python -B -c 'import ast,sys; ast.parse(open(sys.argv[1]).read())' "$f" || exit 1
done
exec /opt/venv/bin/python -B -m mc.selftest
