#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the S(...) entries in tools/seeds.py: patch.diff, demo.sh, demo.cpp, meta.json.
Usage: mkseed.py [id...]   (default: all missing)"""
import json, os, subprocess, sys, shutil
REPO = os.environ.get("VC_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/stubs/cspice"; [ -f "$here/SpiceUsr.h" ] && cp "$here/SpiceUsr.h" "$tmp/stubs/cspice/"
g++ -std=c++20 -O1 -w -DHUIRA_VERSION='"0"' -DHUIRA_DEFAULT_DATA_DIR='"/x"' %s -Iinclude -I"$tmp/stubs" "$here/demo.cpp" -o "$tmp/demo" %s || exit 3
cd "$tmp" && timeout 120 ./demo
'''


def S(id, prop, file, old, new, demo, needs, breaks, flags="", libs="-lpthread", spice=False, more=()):
    d = V + "/seeded/" + id
    if sys.argv[1:]:
        if id not in sys.argv[1:]:
            return
    elif os.path.exists(d + "/meta.json"):
        return
    print(id)
    subprocess.check_call(["rm", "-rf", "/tmp/seedw"])
    subprocess.check_call(["git", "-C", REPO, "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", REPO, "/tmp/seedw"])
    for f, o, n in [(file, old, new)] + list(more):
        p = "/tmp/seedw/" + f
        s = open(p).read()
        assert s.count(o) == 1, (id, f, s.count(o))
        open(p, "w").write(s.replace(o, n))
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", "/tmp/seedw", "diff"], text=True)
    base = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    # only lines of the original repository may change
    for l in diff.split("\n"):
        if l.startswith("-") and not l.startswith("---"):
            for f, o, n in [(file, old, new)] + list(more):
                orig = subprocess.check_output(["git", "-C", REPO, "show", base + ":" + f], text=True)
                if l[1:] in orig.split("\n"):
                    break
            else:
                print("  WARNING not an original line:", l)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % (flags, libs))
    if spice:
        shutil.copy(V + "/stubs/cspice/SpiceUsr.h", d + "/SpiceUsr.h")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd="/tmp/seedw", capture_output=True, text=True)
    print("  demo unchanged rc=%d, changed rc=%d" % (a.returncode, b.returncode), (a.stdout + a.stderr)[-300:] if a.returncode else "", (b.stderr)[-300:] if b.returncode == 3 else "")
    c = subprocess.run([V + "/check", prop], cwd=V, env=dict(os.environ, VC_REPO="/tmp/seedw"), capture_output=True, text=True)
    print("  check rc=%d" % c.returncode, "\n   ".join([""] + [l[:180] for l in c.stdout.split("\n") if l][-3:]))
    subprocess.check_call(["rm", "-rf", "/tmp/seedw"])


exec(open(V + "/tools/seeds.py").read())
