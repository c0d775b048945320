#!/bin/bash
# mut.sh FILE 'python-expr old' 'new' PROP...   : try one textual mutation in a scratch copy
f=$1; old=$2; new=$3; shift 3
d=$(mktemp -d /tmp/mutXXXXXX); mkdir -p $d/repo; cp -a ${BASE:-/repo}/syncanysql $d/repo/
OLD="$old" NEW="$new" python3 - "$d/repo/$f" <<'P' || { rm -rf "$d"; exit 3; }
import os, sys
p = sys.argv[1]; s = open(p).read(); o = os.environ["OLD"].encode().decode("unicode_escape"); n = os.environ["NEW"].encode().decode("unicode_escape")
if o not in s: print("OLD TEXT NOT FOUND"); sys.exit(1)
open(p, "w").write(s.replace(o, n, 1))
P
for prop in "$@"; do PYVC_REPO=$d/repo VERIF_SEED=1 VERIF_TIER=quick python3-vt -B /verif/pyvc/check.py $prop | cut -c1-260; done
rm -rf "$d"
