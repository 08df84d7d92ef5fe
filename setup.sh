#!/bin/bash
# Builds the extractor and warms the expansion and replay builds; every check also does this for itself when needed.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, '.')
from vp import driver
print(driver.tool())
P
