#!/bin/bash
# Compiles the TLC operator overrides (java/) into build/.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
PYTHONPATH=$HERE/lib PYTHONDONTWRITEBYTECODE=1 python3 -c "import vb; vb.build_java(force=True)"
