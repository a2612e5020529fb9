#!/bin/bash
# check.sh ID [--replay FILE]
cd "$(dirname "$0")" && exec python3 harness/check.py "$@"
