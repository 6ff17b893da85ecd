#!/bin/bash
# builds the IR extractor used by every check
set -e
cd "$(dirname "$0")"
python3 -c "from bzsa.ir import ensure_irdump; ensure_irdump()"
