#!/bin/bash
# builds the analyser and the dependencies of the analysis roots (offline)
cd "$(dirname "$0")" && exec python3 tools/check.py --setup
