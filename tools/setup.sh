#!/bin/bash
# Unpacks the vendored crates and builds every harness once, so that checks build incrementally.
cd "$(dirname "$0")/.." && exec python3 tools/setup.py
