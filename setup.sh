#!/bin/bash
# Checks build themselves from /repo's working tree; this only proves that they can.
cd "$(dirname "$0")" && VERIF_SECONDS=1 ./check.sh build
