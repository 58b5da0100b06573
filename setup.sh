#!/bin/bash
# nothing to build: the verifier is Python, and each check compiles its harness from /repo itself
set -e
python3-vt -c "import z3, cvc5"
clang++-18 --version >/dev/null
