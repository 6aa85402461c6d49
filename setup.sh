#!/bin/bash
# Checks that the tools are there and that the TLC operator override compiles.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh >/dev/null 2>&1
python - <<'P'
import tempfile
from ntnv import tlc
with tempfile.TemporaryDirectory() as d:
    tlc.compile_java(d)
P
