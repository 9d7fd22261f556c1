#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -m sa.main "$@"
