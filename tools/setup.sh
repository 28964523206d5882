#!/bin/bash
# nothing to build ahead: every check compiles /repo's current sources itself
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replay
clang++ --version | head -1
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
