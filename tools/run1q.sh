#!/bin/sh
# run1.py with short output
exec timeout ${T:-900} python3-vt /verif/tools/run1.py "$@" 2>&1 | grep -v '\[unsat\]' | tail -${N:-30} | cut -c1-${W:-330}
