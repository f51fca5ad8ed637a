#!/bin/bash
# run.sh <property id> [--replay FILE]: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH PYTHONHOME http_proxy https_proxy HTTP_PROXY HTTPS_PROXY
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore -m pbt.main "$@"
