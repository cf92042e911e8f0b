#!/bin/bash
# Builds the engine and, for every harness module, the LLVM IR and the native replay binary.
cd "$(dirname "$0")" || exit 1
exec python3 check.py --setup
