#!/bin/sh
# Everything is interpreted or built per run; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy, scipy"
mkdir -p evidence
