#!/bin/bash
# nothing is built: the checks run from source with installed tools
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
python3-vt -c "import hypothesis, numpy, scipy"
/opt/venv/bin/python -c "import pandas, numpy"
