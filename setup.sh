#!/bin/bash
# Nothing is prebuilt: every check compiles its harness from /repo's current tree.
set -e
cd "$(dirname "$0")"
command -v clang++-18 >/dev/null
command -v python3 >/dev/null
mkdir -p evidence
python3 -c "import checks; print(len(checks.CHECKS), 'checks configured')"
