#!/bin/bash
# Nothing is installed: checks compile their harnesses themselves. This only
# verifies that the tools they need are present and that the engine compiles.
cd "$(dirname "$0")" || exit 1
set -e
python3 -c 'import json; json.load(open("MANIFEST.json"))'
mkdir -p build evidence replays
g++-10 -std=gnu++17 -w -O1 -fsanitize=address -I engine -c engine/pbt_main.cpp -o build/setup_probe.o
rm -f build/setup_probe.o
echo setup ok
