#!/usr/bin/env python3
"""mkbug.py ID PROP FILE OLD NEW NEEDS BREAKS: writes seeded/ID/{patch.diff,meta.json,demo.sh}
from a replacement in FILE (repeat FILE OLD NEW with --more FILE OLD NEW)."""
import json, os, subprocess, sys, tempfile, shutil
a = sys.argv[1:]
bid, prop, edits = a[0], a[1], [a[2:5]]
needs, breaks = a[5], a[6]
rest = a[7:]
while rest:
    assert rest[0] == "--more"
    edits.append(rest[1:4]); rest = rest[4:]
d = os.path.join("/verif/seeded", bid)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
try:
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (t, t), shell=True)
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=t, text=True)
finally:
    shutil.rmtree(t)
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
sh = os.path.join(d, "demo.sh")
if not os.path.exists(sh):
    open(sh, "w").write('''#!/bin/bash
# run in the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
clang++ -std=c++17 -O1 -g -w -include cstdint -DMAF_STATIC_LIBRARY -DMAF_MIN_ALLOWED_LOG_LEVEL=1 -Iinclude -Isrc/common "$here/demo.cpp" \\
  src/common/maf/messaging/{Processor,Router,Routing}.cpp src/common/maf/logging/Logger.cpp \\
  src/common/maf/utils/DirectExecutor.cpp -pthread -o "$w/demo" || exit 2
cd "$w" && timeout 60 ./demo
''')
    os.chmod(sh, 0o755)
print(diff)
