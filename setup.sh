#!/bin/sh
# Builds the harnesses from the committed files and /repo's working tree (a cache; checks rebuild what changed).
cd "$(dirname "$0")" && exec python3 tools/prebuild.py
