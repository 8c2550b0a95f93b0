#!/bin/bash
# Builds the conformance drivers and the Python package from /repo's working tree (every check also does this by itself).
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
from core import Ctx
c = Ctx('setup', 'quick', 1)
for b in ('mh', 'sig', 'sh', 'text', 'cs', 'st', 'share'):
    c.build(b)
c.build('mh', plain=True)
c.build('cl', hooks=True)
c.build_py()
P
rm -rf "$PWD/work/setup"
test -f /opt/veriftools/tla/tla2tools.jar
echo "setup ok"
