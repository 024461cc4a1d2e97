#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$0")/.." && exec python3 tools/check.py "$@"
