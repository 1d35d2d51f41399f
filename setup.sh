#!/bin/bash
# builds the exporter; everything else is derived from /repo on each run
set -e
cd "$(dirname "$0")"
python3 -c 'import sys; sys.path.insert(0, "."); from sa import project; print(project.exporter())'
