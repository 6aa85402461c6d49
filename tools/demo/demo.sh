#!/bin/bash
# cwd /repo, after the build: 0 if the property holds, nonzero otherwise
. /opt/vp/env.sh
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
