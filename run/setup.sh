#!/bin/bash
# Nothing is installed: the checks compile /repo and the boundary models themselves, offline.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
cargo kani --version
python3 -c 'import json,sys; json.load(open("MANIFEST.json"))'
