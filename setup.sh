#!/bin/bash
# Warms go's build cache: builds the harness once in the three ways the checks use it.
cd "$(dirname "$0")" || exit 1
for p in C05 C17; do bash run.sh $p quick >/dev/null 2>&1; done
VERIF_BUILD_ONLY=1 bash run.sh C02 quick >/dev/null 2>&1
exit 0
