#!/usr/bin/env python3
"""mkseed.py: read a seed description (python file defining NAME, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) and write /verif/seeded/NAME."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for src in sys.argv[1:]:
    g = {}
    exec(open(src).read(), g)
    for s in g["SEEDS"]:
        d = os.path.join(V, "seeded", s["name"])
        os.makedirs(d, exist_ok=True)
        t = "/tmp/mkseed"
        shutil.rmtree(t, ignore_errors=True)
        subprocess.check_call("git -C /repo worktree prune; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.name=a -c user.email=a@b commit -qm x" % (t, t, t, t, t), shell=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(t, f)
            txt = open(p).read()
            if txt.count(old) != 1:
                print(s["name"], f, "anchor occurs", txt.count(old), "times:", old[:60])
                ok = False
                continue
            open(p, "w").write(txt.replace(old, new))
        if not ok:
            continue
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
        shutil.copy(os.path.join(V, "tools", "demo.sh"), os.path.join(d, "demo.sh"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(t)
        print("wrote", s["name"])
