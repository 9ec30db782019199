#!/bin/bash
# Everything is built by the checks themselves; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
/opt/veriftools/go1.27.3/bin/go version
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
echo ok
