#!/bin/bash
# builds the clang AST printer into /verif/build (checks build it themselves if it is missing)
cd "$(dirname "$0")" && mkdir -p build && python3-vt - <<'P'
import sys, os; sys.path.insert(0, 'vc')
import front, tempfile, shutil
d = tempfile.mkdtemp()
p = front.tool(d)
if not p.startswith(front.VERIF):
    q = front.VERIF + '/build/' + os.path.basename(p)
    shutil.copy(p, q + '.tmp'); os.chmod(q + '.tmp', 0o755); os.rename(q + '.tmp', q)
shutil.rmtree(d)
P
