#!/bin/bash
# nothing to build: the verifier is Python; check that the tools it needs are present
set -e
cd "$(dirname "$0")"
for t in clang llvm-link opt gcc objcopy python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
mkdir -p evidence
echo ok
