#!/bin/bash
# usage: check.sh PROPERTY
# Analyses /repo's current source for one property. The analyzer is built by
# build.sh (setup_cmd), or here if it's missing or older than its sources.
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x bin/zpv ] || [ -n "$(find zpv -name '*.go' -newer bin/zpv -print -quit 2>/dev/null)" ]; then
	./build.sh || exit 2
fi
mkdir -p evidence
exec bin/zpv -repo "${ZPV_REPO:-/repo}" -verif "$PWD" "$@"
