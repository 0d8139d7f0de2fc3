#!/bin/bash
# Builds the harness, offline.
cd "$(dirname "$0")" || exit 2
TEV_PROFILE=plain bash run.sh build || exit 2
exec bash run.sh build
