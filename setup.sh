#!/bin/bash
# Builds the harness in every variant and the Python extension, offline, into /verif/build.
cd "$(dirname "$0")" && exec python3 tools/build.py
