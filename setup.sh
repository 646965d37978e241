#!/bin/bash
# Builds the generator from /repo and the crates generated code depends on; every check does so itself when needed.
cd "$(dirname "$0")" || exit 2
exec python3 -c '
import sys; sys.path.insert(0, "."); sys.dont_write_bytecode = True
from vlib import build
print(build.cli()); print(len(build.deps()[0]), "crates")'
