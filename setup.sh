#!/bin/bash
# builds both variants of the harness once, so that the build cache is warm
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p .build evidence
( cd harness && go build -o ../.build/setup.bin . && go build -race -o ../.build/setup.bin . )
rm -f .build/setup.bin
echo "setup done"
