#!/bin/bash
# every registered check on the current tree, in parallel
cd "$(dirname "$0")/.."
tools/dump.sh /tmp/m.json || exit 1
for p in $(python3 -c "
import sys; sys.path.insert(0,'analyzer')
import run; print(*sorted(run.registry()))"); do VERIF_EVIDENCE=/tmp/ev timeout 800 python3 analyzer/run.py --property $p --dump /tmp/m.json -v | grep -v '^ held' | cut -c1-${W:-260} & done; wait
