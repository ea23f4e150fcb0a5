#!/bin/sh
# Builds the I/O seam (checks also build it by themselves when it is missing).
cd "$(dirname "$0")/.." && mkdir -p build && python3 -c "
import sys; sys.path.insert(0, 'dst')
import run; print(run.build())"
