#!/bin/bash
# trybug.sh BUG PROPERTY...: runs the quick checks of the given properties with the planted bug applied
B=$1; shift
git -C /repo apply /verif/seeded/$B/patch.diff || exit 3
for p in "$@"; do
  echo "== $B $p"; (cd /verif && python3 run.py $p quick | tail -3 | cut -c1-700)
done
git -C /repo checkout -- .
