#!/bin/bash
# Exit 0: what main.rs checks holds on the tree in the current directory.  Everything is built and run in
# a scratch directory that is removed afterwards.
exec python3 "$(cd "$(dirname "$0")" && pwd)/run.py" "$PWD"
