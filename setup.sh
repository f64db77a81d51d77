#!/bin/bash
# Nothing to install: every check builds what it needs from /repo. This only verifies the toolchain is there.
set -e
cd "$(dirname "$0")"
python3 -c 'import json; json.load(open("checks.json")); json.load(open("MANIFEST.json"))'
PATH="${CARGO_HOME:-$HOME/.cargo}/bin:$PATH" cargo --version
test -f /repo/Cargo.toml
