# source me: mk ID PROP needs breaks <<json ; demo ID <<python
mk() { cat > /tmp/spec.json; /verif/tools/mkseed.py "$1" "$2" "$3" "$4" /tmp/spec.json; }
HDR='#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/py:/opt/vp/work/gen/py:/opt/vp/work/gen" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python - "$HERE" <<"P"
'
demo() { { printf '%s' "$HDR"; cat; echo P; } > /verif/seeded/$1/demo.sh; }
