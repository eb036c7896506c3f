#!/bin/bash
# Builds the exporter and fills the per-unit fact cache (the cache is validated against file contents on every run)
set -e
cd "$(dirname "$0")/.."
bash tool/build.sh
python3 -B -c "
import sys; sys.path.insert(0, 'sa')
import facts
try:
    facts.load()
except facts.AnalysisBroken as e:
    print(e)
"
