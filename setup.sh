#!/bin/bash
# Builds the MIR fact driver once; every check rebuilds it when it is missing.
cd "$(dirname "$0")" || exit 1
exec python3 -c '
import sys
sys.path.insert(0, "analysis")
import env
print(env.build_driver(env._build_root()))'
