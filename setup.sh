#!/bin/bash
# nothing to build: the analyser is Python; verify that its inputs are present
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 python3-vt -c "import pycparser; import athsa.check" && clang --version >/dev/null
