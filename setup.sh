#!/bin/bash
# Builds the harness from the committed files (checks rebuild it themselves from /repo's tree).
cd "$(dirname "$0")" && exec python3 -c '
import sys; sys.path.insert(0, "lib")
import run; print(run.build_harness())'
