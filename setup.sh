#!/bin/bash
# builds the exporter; checks rebuild whatever is missing by themselves
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import load
print("exporter:", load.tool())
P
