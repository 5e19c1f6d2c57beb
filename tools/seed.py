#!/usr/bin/env python3
"""seed.py NAME: validate /verif/seeded/NAME (patch applies, builds, stable tests pass, demo fails with / passes without),
and run the property's check against it. Uses scratch copies under /tmp/seed."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed"


def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not names:
        names = sorted(os.listdir(os.path.join(V, "seeded")))
    only = "--check" in sys.argv
    for name in names:
        d = os.path.join(V, "seeded", name)
        meta = json.load(open(os.path.join(d, "meta.json")))
        os.makedirs(W, exist_ok=True)
        tree = os.path.join(W, "repo")
        sh("rsync -a --delete --exclude target --exclude .git /repo/ %s/" % tree)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(W, "target"), DEMO_TARGET=os.path.join(W, "target"))
        res = []
        if not only:
            rc, out = sh("bash %s/demo.sh" % d, cwd=tree, env=env)
            res.append("demo-clean=%s" % rc)
            if rc:
                print(chr(10).join([l for l in out.splitlines() if l.startswith('error') or 'panicked' in l][:5]))
        rc, out = sh("patch -p1 < %s/patch.diff" % d, cwd=tree)
        if rc:
            print(name, "PATCH DOES NOT APPLY", out[-300:])
            continue
        if not only:
            rc, out = sh("cargo test --offline 2>&1 | grep -E '^test result|FAILED|^error'", cwd=tree, env=env)
            res.append("tests:" + ("ok" if "FAILED" not in out and "error" not in out else "BAD " + out[-500:]))
            rc, out = sh("bash %s/demo.sh" % d, cwd=tree, env=env)
            res.append("demo-bug=%s" % rc)
        e2 = dict(os.environ, FOLIA_REPO=tree, FOLIA_VERIF_BUILD="/tmp/seed/build", FOLIA_EVIDENCE="/tmp/seed/evidence")
        props = [meta["property"]] if "--all" not in sys.argv else [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
        for p in props:
            rc, out = sh("python3 check.py %s" % p, cwd=V, env=e2)
            res.append("%s:%s" % (p, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % p in out else "quiet" if rc == 0 else "ERR"))
            if p == meta["property"]:
                keys = [l.split("key=")[1].split(" ::")[0][:70] for l in out.splitlines() if l.startswith("VIOLATION")][:3]
        print(name, " ".join(r for r in res if not r.endswith("quiet") or r.startswith(meta["property"])), keys, flush=True)


main()
