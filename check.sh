#!/bin/bash
# check.sh <property> [args]: runs one check with the environment the repository is built in
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=
exec python run_check.py "$@" 2> >(grep -v -e '^WARNING' -e '^I0' -e '^W0' -e '^E0' >&2)
