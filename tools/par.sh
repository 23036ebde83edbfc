#!/bin/bash
# par.sh PID entry...   verify entries in parallel, print what fails
P=$1; shift
D=$(mktemp -d)
for e in "$@"; do echo $e; done | xargs -P 8 -I{} sh -c "V=1 N=\${N:-6} tools/run1q.sh $P check_{} > $D/{} 2>&1"
for e in "$@"; do tail -${N:-6} $D/$e | cut -c1-${W:-260}; done
rm -rf $D
