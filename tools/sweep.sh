#!/bin/bash
# development: sweep.sh "C01 C02" "1 2 3" quick
cd "$(dirname "$0")/.."
for c in $1; do for s in $2; do VERIF_SEED=$s ./run $c ${3:-quick} 2>/dev/null | cut -c1-400 | grep -v KNOWN; done; done
