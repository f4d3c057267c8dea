#!/bin/bash
# nothing to build: the explorer is Python and imports /repo's working tree
cd "$(dirname "$0")" && /opt/pypyvenv/bin/python -B run.py list >/dev/null
