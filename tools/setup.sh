#!/bin/sh
# nothing to build ahead of time: every check compiles what it needs from /repo
set -e
command -v clang++ >/dev/null; command -v python3-vt >/dev/null
python3-vt -c 'import z3, numpy'
