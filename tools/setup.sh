#!/bin/bash
# Checks build what they need themselves; this only makes sure the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
test -x /opt/veriftools/go1.26.10/bin/go || command -v go >/dev/null
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
python3 -c 'import json'
