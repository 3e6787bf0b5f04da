#!/bin/bash
# builds the checker from the vendored sources (offline)
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin
cd checker && go build -o ../bin/nobscheck .
