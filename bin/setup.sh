#!/bin/bash
# Builds what the checks share: the TLC overrides and the recorder.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOENV=off GOWORK=off
python3 - <<'P'
import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "bin")
from vlib.core import Check
c = Check("setup"); c.classes(); c.close()
P
(cd harness && go build -o /dev/null ./driver)
for m in spec/*.tla; do :; done
echo setup done
