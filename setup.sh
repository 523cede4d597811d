#!/bin/bash
# Nothing has to be prepared: each check builds what it needs from /repo. Verify that the tools are there.
set -e
cd "$(dirname "$0")"
for t in gcc cmake ninja pkg-config python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
pkg-config --exists glib-2.0 cfitsio
mkdir -p evidence/replays
