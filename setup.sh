#!/bin/bash
# offline, nothing to build: verifies that the toolchain parses the specification and that the library imports
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
d=$(mktemp -d)
trap '/bin/rm -rf "$d"' EXIT
cp spec/*.tla "$d"/ || exit 1
cd "$d" || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > out.txt 2>&1 || { cat out.txt; exit 1; }
done
cd - >/dev/null || exit 1
"$PY" -c "import sys; sys.path.insert(0, '/repo'); import dissect.cstruct" || exit 1
echo ok
