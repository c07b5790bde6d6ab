#!/bin/bash
# Builds everything the checks use (they also build what is missing, or has changed, themselves).
cd "$(dirname "$0")" && exec python3 tools/setup.py
