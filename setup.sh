#!/bin/bash
# Builds the MIR dumper and warms the dependency builds. Every check does this itself when needed.
cd "$(dirname "$0")" && exec python3-vt engine/run.py setup
