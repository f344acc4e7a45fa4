"""mkseed(id, property, [(file, old, new)], needs, what, demo_sh, files{}): writes /verif/seeded/<id> from /repo HEAD."""
import json, os, subprocess, sys
REPO = os.environ.get("VP_REPO", "/repo")
def mk(id, prop, edits, needs, what, demo, files={}):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    assert subprocess.check_output(["git", "-C", REPO, "status", "--porcelain", "--untracked-files=no"]) == b""
    try:
        for f, a, b in edits:
            p = REPO + "/" + f; s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", REPO, "diff"]))
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(demo)
    for n, t in files.items(): open(d + "/" + n, "w").write(t)
CPP = '''#!/bin/bash
# run in /repo: builds the demonstration against the current sources in a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=gnu++17 -w -O1 %s -I "$PWD" "$here/demo.cpp" %s -o "$w/demo" || exit 3
cd "$w" && timeout 120 ./demo
'''
