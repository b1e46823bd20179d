#!/bin/bash
# Builds what the checks need: the TLC overrides and the harness (which every check brings up to date again)
set -e
cd "$(dirname "$0")"
python3 -c '
import sys
sys.path.insert(0, "mbt")
import engine
engine.build_java()
engine.build_harness()
engine.build_harness(True)
engine.build_features(["plain"])
'
mkdir -p evidence work
