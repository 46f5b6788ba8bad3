#!/bin/bash
# Warm build of the harness's dependencies and a syntax check of the specification.
# The checks do not need what this leaves behind; they build what they use themselves.
set -e
cd "$(dirname "$0")/.."
python3 -c '
import sys; sys.path.insert(0, "tools")
import os, vlib
for p in ("release", "checked", "dev", "small"):
    h = vlib.build(p); print("built", p, "hooks" if h.hooks else "plain"); os.remove(h.path)
'
command -v tlc java cargo >/dev/null
