#!/bin/sh
# The checks build everything they need from /repo on every run; this only makes
# sure that the tools they use are here.
set -e
cd "$(dirname "$0")"
ls -d /opt/veriftools/go1.2*/bin/go >/dev/null
python3 -c 'import json; json.load(open("MANIFEST.json"))'
mkdir -p evidence
echo ready
