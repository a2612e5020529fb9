#!/bin/bash
# Compile the TLC override; checks build /repo themselves.
cd "$(dirname "$0")" && exec python3 harness/check.py --setup
