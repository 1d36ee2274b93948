#!/bin/bash
# builds the MIR driver and extracts the facts of /repo once (warms the caches)
set -e
cd "$(dirname "$0")"
python3 -c "import facts; d, g = facts.extract(); print(len(d['fns']), 'functions', g[:12])"
