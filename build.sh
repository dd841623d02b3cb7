#!/bin/bash
# Builds the analyzer into /verif/bin (offline, from the committed and vendored sources).
set -e
cd "$(dirname "$0")/zpv"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p ../bin
GOFLAGS=-mod=vendor go build -o ../bin/zpv.tmp.$$ .
mv ../bin/zpv.tmp.$$ ../bin/zpv
