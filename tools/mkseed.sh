#!/bin/bash
# mkseed.sh <id> : turn the edits made in /tmp/wt (a copy of /repo at HEAD) into
# /verif/seeded/<id>/patch.diff and reset /tmp/wt.
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /tmp/wt diff > "$d/patch.diff"
git -C /tmp/wt checkout -q -- .
cat > "$d/demo.sh" <<'SH'
#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
SH
chmod +x "$d/demo.sh"
wc -l "$d/patch.diff"
