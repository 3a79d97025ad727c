#!/bin/bash
# Nothing to install for the Python analyses; compiles the helper modules once.
set -e
cd "$(dirname "$0")"
python3 -m compileall -q lib checks tools >/dev/null || true
[ -f tools/build_tools.sh ] && bash tools/build_tools.sh
exit 0
