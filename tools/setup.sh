#!/bin/sh
# Checks build what they need themselves; setup only confirms that the tools are here.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/root/.cargo/bin/cargo --version
python3 -c 'import json; json.load(open("MANIFEST.json"))'
