#!/bin/bash
# builds the extractor and the harness (checks rebuild them when needed)
cd "$(dirname "$0")/.." && python3 - <<'P'
import sys
sys.path.insert(0, 'tools'); sys.argv = ['setup']
import vgen, check
vgen.extractor()
check.harness()
print('setup done')
P
