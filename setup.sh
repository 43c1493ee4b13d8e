#!/bin/bash
# Nothing to build: the engine is Python + the installed LLVM/z3/cvc5; this checks they are present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
python3-vt -c "import z3,sys; sys.path.insert(0,'engine'); import llvmread, prove; print('engine ok', z3.get_version_string())"
command -v clang++ opt llvm-link g++ cvc5 c++filt >/dev/null
