#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly. Verifies that the tools are there.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c "
from mv import env; env.setup()
import hypothesis, torch, numpy, sd_mecha
print('hypothesis', hypothesis.__version__, 'torch', torch.__version__, 'sd_mecha', sd_mecha.__file__)
"
