#!/bin/bash
# Optional warm-up: build the compiled extensions of the current tree into the cache.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore - <<'PY'
import sys, tempfile, shutil
sys.path.insert(0, 'lib')
import vf
d = tempfile.mkdtemp()
try:
    for e in vf.EXTS:
        print(e, vf.build_ext(e, vf.REPO, d))
finally:
    shutil.rmtree(d)
PY
