#!/bin/bash
# builds the IR dumper (the only compiled part of the verifier); every check also rebuilds it when it is missing
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replay
/opt/veriftools/pyvenv/bin/python3 -c "
import sys; sys.path.insert(0,'engine'); import run; print(run.irdump_path())"
