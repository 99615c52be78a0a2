#!/bin/bash
# Nothing is compiled ahead: checks build what they need from /repo's working tree. Sanity-check the interpreter.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out/replay
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import vk.common"
