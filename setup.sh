#!/bin/bash
# Builds /repo's working tree in place (the checks do it again, incrementally).
set -e
bash /opt/vp/build.sh
/opt/venv-pypy/bin/python -c "import numpy, pyproj, osgeo.gdal"
python3-vt -c "import hypothesis"
