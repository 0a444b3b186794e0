#!/bin/bash
# Nothing to build: specifications are interpreted by TLC and the code is imported from /repo/src.  Sanity only.
cd "$(dirname "$0")/.." || exit 1
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
test -f /opt/veriftools/tla/tla2tools.jar || { echo "no TLC"; exit 1; }
/opt/venv/bin/python -c "import osgeo.gdal, numpy, shapely" || exit 1
mkdir -p evidence/replay
echo ok
