#!/bin/bash
# Rebuilds the simulator from /repo's working tree and replays a file.  Exit 1: the violation is reproduced.
exec python3 "$(dirname "$0")/check.py" --replay "$@"
