#!/bin/bash
# Builds the analyzer from the committed sources (offline, vendored).
cd "$(dirname "$0")/analyzer" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=vendor
mkdir -p ../bin && go build -trimpath -o ../bin/an . 
