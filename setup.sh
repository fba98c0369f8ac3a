#!/bin/bash
# Unpacks hypothesis (and sortedcontainers) from the offline wheelhouse into
# /verif/.deps.  Every check does the same on demand, so this only saves time.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "from harness import boot; boot.deps(); print('ok')"
