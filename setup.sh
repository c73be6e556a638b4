#!/bin/bash
# Nothing to install: build batoid once and check that the tools are there.
. /opt/vp/env.sh
bash /opt/vp/build.sh >/dev/null 2>&1 || true
python -c "import hypothesis, numpy, scipy, galsim, batoid"
