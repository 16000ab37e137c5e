#!/usr/bin/env python3
"""Writes ../seeded/<id>/ for every planted bug below (bugs.py [id...]).

Each entry: id, property, needs, what it breaks, edits (file, old, new, nth) and
the demonstration (body of main)."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
F, A = "programs/farming/src/", "programs/amm/src/"
BUGS = []


def bug(id, prop, needs, breaks, edits, main):
    BUGS.append((id, prop, needs, breaks, edits, main))


exec(open(os.path.join(HERE, "farming_bugs.py")).read())
exec(open(os.path.join(HERE, "amm_bugs.py")).read())

HEAD = """#![allow(dead_code, unused_imports)]
mod abs;
mod kit;
mod sim;
mod spec;
use kit::Kit;
use sim::{bad, same, Sim};
use svm::tok;

"""


def main():
    want = sys.argv[1:]
    for id, prop, needs, breaks, edits, body in BUGS:
        if want and id not in want:
            continue
        d = os.path.join(OUT, id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        t = f"/tmp/plant-{os.getpid()}"
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        subprocess.run("git -C /repo archive HEAD programs | tar x -C " + t, shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=t, check=True)
        for file, old, new in edits:
            p = os.path.join(t, file)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f"{id}: {file}: {s.count(old)} matches of {old!r}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git diff", shell=True, cwd=t, check=True, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.rmtree(t)
        prog = "farming" if prop[0] == "F" else "amm"
        subprocess.run([os.path.join(HERE, "make.sh"), prog, d], check=True)
        open(os.path.join(d, "main.rs"), "w").write(HEAD + "fn main() {\n" + body.strip("\n") + "\n    println!(\"fine\");\n}\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", id)


main()
