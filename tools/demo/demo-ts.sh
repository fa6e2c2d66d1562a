#!/bin/bash
# Exit 0: what demo.cjs checks holds on the tree in the current directory.  Nothing is written anywhere.
exec timeout 250 node "$(cd "$(dirname "$0")" && pwd)/demo.cjs"
