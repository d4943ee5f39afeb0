#!/usr/bin/env python3
"""Bring build/src up to date with /repo's working tree, comparing file contents.

The compiler is built from build/src so that a file whose content did not change keeps its
timestamp, whatever happened to /repo's own timestamps (fresh checkout, git apply + undo ...).
"""
import os, shutil, sys

SUBDIRS = ["codon", "cmake", "stdlib"]
FILES = ["CMakeLists.txt"]

def sync(repo, dst):
    changed = []
    want = set()
    def one(rel):
        want.add(rel)
        s, d = os.path.join(repo, rel), os.path.join(dst, rel)
        data = open(s, "rb").read()
        try:
            if open(d, "rb").read() == data:
                return
        except OSError:
            pass
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d + ".tmp~", "wb") as f:
            f.write(data)
        os.replace(d + ".tmp~", d)
        changed.append(rel)
    for f in FILES:
        one(f)
    for sub in SUBDIRS:
        for base, dirs, files in os.walk(os.path.join(repo, sub)):
            dirs[:] = [x for x in dirs if x not in (".git", "__pycache__")]
            for f in files:
                p = os.path.join(base, f)
                if os.path.isfile(p):
                    one(os.path.relpath(p, repo))
    for sub in SUBDIRS:
        for base, dirs, files in os.walk(os.path.join(dst, sub)):
            for f in files:
                rel = os.path.relpath(os.path.join(base, f), dst)
                if rel not in want:
                    os.unlink(os.path.join(dst, rel))
                    changed.append(rel)
    return changed

if __name__ == "__main__":
    for c in sync(sys.argv[1], sys.argv[2]):
        print(c)
