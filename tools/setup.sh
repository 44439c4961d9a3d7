#!/bin/bash
# builds the SSA exporter (offline)
. /opt/vp/env.sh >/dev/null 2>&1
cd "$(dirname "$0")/ssaexport" && mkdir -p ../../.build && go build -o ../../.build/ssaexport .
