#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")" && VERIF_BUDGET=1 bash run.sh C01 quick >/dev/null 2>&1
exit 0
