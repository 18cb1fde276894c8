#!/usr/bin/env python3
"""(Re)creates /verif/seeded/<id>/ from the definitions below. Patches are made against
/repo's HEAD in a scratch copy. Usage: seed_bugs.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo, files=()):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files)


def load():
    d = os.path.join(V, "tools", "bugs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(d, f)).read(), f, "exec"), {"bug": bug})


def main():
    load()
    ids = sys.argv[1:] or sorted(BUGS)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(f"git -C /repo archive HEAD src | tar x -C {t}", shell=True, check=True)
        subprocess.run(["git", "init", "-q", t], check=True)
        g = ["git", "-C", t, "-c", "user.name=x", "-c", "user.email=x@x", "-c", "core.autocrlf=false"]
        subprocess.run(g + ["add", "-A", "-f"], check=True)
        subprocess.run(g + ["commit", "-qm", "x"], check=True)
        for id in ids:
            b = BUGS[id]
            for f, old, new in b["edits"]:
                p = os.path.join(t, "src", f)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (id, f, s.count(old), old)
                open(p, "w", newline="").write(s.replace(old, new))
            diff = subprocess.run(g + ["diff"], capture_output=True, check=True).stdout
            d = os.path.join(V, "seeded", id)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            subprocess.run(g + ["checkout", "-q", "--", "."], check=True)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            open(d + "/demo.py", "w").write("from dl import *\n" + b["demo"].strip("\n") + "\n")
            open(d + "/demo.sh", "w").write('#!/bin/bash\nset -u\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            for x in ("dl.py",) + tuple(b["files"]):
                shutil.copy(os.path.join(V, "tools/demo", x), d)
    finally:
        shutil.rmtree(t)


main()
