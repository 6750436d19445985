#!/bin/bash
# Nothing to build: the checks import /repo/src directly. Fail early when the interpreter or a dependency is missing.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="/repo/src:$here" /opt/venv/bin/python -c "import mpllayout, jax, matplotlib, numpy, scipy; print('ok', list(mpllayout.__path__)[0])"
