#!/bin/bash
# Builds the helper tools (the checks also build them on demand).
cd "$(dirname "$0")" && python3 -c "
import sys; sys.dont_write_bytecode = True; sys.path.insert(0, 'lib')
import build
for t in ('irx',): print(build.tool(t))"
