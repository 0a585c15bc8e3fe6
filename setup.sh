#!/bin/bash
# Checks that the harness builds here; the checks build their own copy.
set -e
cd "$(dirname "$0")"
VERIF_BUILD_ONLY=1 bash run.sh none
