#!/bin/sh
# Builds the sources of /repo and every harness once (checks rebuild what changed).
cd "$(dirname "$0")/.." || exit 1
exec python3 tools/setup.py
