#!/bin/bash
cd /verif; export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore tools/dbg.py "$@" 2>/tmp/w/err
