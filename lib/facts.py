"""Obtain the MIR facts of /repo's current working tree (build driver if needed, run cargo check with it)."""
import hashlib, json, os, shutil, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FOLIA_REPO", "/repo")
BUILD = os.environ.get("FOLIA_VERIF_BUILD", os.path.join(VERIF, ".build"))


class AnalysisError(Exception):
    """The analysis could not be carried out (fail closed)."""


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def sysroot():
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise AnalysisError("no nightly toolchain: " + out)
    return out.strip()


def _hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def _sources(root):
    out = []
    for d, ds, fs in os.walk(os.path.join(root, "src")):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(root, f)
        if os.path.exists(p):
            out.append(p)
    return out


def build_driver():
    src = os.path.join(VERIF, "driver")
    key = _hash_files([os.path.join(src, "src", "main.rs"), os.path.join(src, "Cargo.toml")])
    out = os.path.join(BUILD, "driver")
    stamp = os.path.join(out, "stamp")
    binp = os.path.join(out, "release", "mirfacts")
    if os.path.exists(stamp) and os.path.exists(binp) and open(stamp).read() == key:
        return binp, key
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=out)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    rc, txt = _run(["cargo", "+nightly", "build", "--offline", "--release"], cwd=src, env=env)
    if rc:
        raise AnalysisError("driver does not build:\n" + txt[-3000:])
    with open(stamp, "w") as f:
        f.write(key)
    return binp, key


def facts_dir():
    """Run the driver over the current tree (results cached by the content hash of the sources)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binp, dkey = build_driver()
        skey = _hash_files(_sources(REPO))
        tag = hashlib.sha256((dkey + skey).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "facts", tag)
        if os.path.exists(os.path.join(out, "done")):
            return out, tag
        fdir = os.path.join(BUILD, "facts")
        if os.path.isdir(fdir):
            old = sorted((os.path.join(fdir, d) for d in os.listdir(fdir)), key=os.path.getmtime)
            for d in old[:-6]:
                shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(BUILD, "target")
        for sub in (".fingerprint", "build"):
            fp = os.path.join(target, "debug", sub)
            for d in os.listdir(fp) if os.path.isdir(fp) else ():
                if d.startswith("folia"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        lock, spare = os.path.join(REPO, "Cargo.lock"), "/opt/vp/Cargo.lock"
        if not os.path.exists(lock) and os.path.exists(spare):
            shutil.copy(spare, lock)  # git-ignored in /repo; build.sh puts it back the same way
        env = dict(
            os.environ,
            CARGO_TARGET_DIR=target,
            CARGO_INCREMENTAL="0",
            RUSTC_WORKSPACE_WRAPPER=binp,
            MIRFACTS_OUT=out,
            LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
        )
        env.pop("RUSTFLAGS", None)
        rc, txt = _run(["cargo", "+nightly", "check", "--offline", "--lib", "--bins"], cwd=REPO, env=env)
        if rc:
            raise AnalysisError("/repo does not build under the MIR driver:\n" + txt[-3000:])
        if not os.path.exists(os.path.join(out, "folia.json")):
            raise AnalysisError("the MIR driver produced no facts (wrapper skipped?)")
        with open(os.path.join(out, "done"), "w") as f:
            f.write("ok")
        return out, tag


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.adts = {}
        for t in self.types:
            if t.get("k") == "adt":
                self.adts.setdefault(t.get("path"), t)
        self.name = d["crate"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["name"]] = b
        self.by_path = {}
        for b in d["bodies"]:
            self.by_path.setdefault(b["path"], []).append(b)

    def adt(self, path):
        """variants of a (monomorphic) local ADT by path"""
        t = self.adts.get(path)
        if t is None:
            raise AnalysisError("type %s not found" % path)
        return t

    def tyidx(self, s):
        for i, t in enumerate(self.types):
            if t["s"] == s:
                return i
        raise AnalysisError("type %s not found" % s)

    def fn(self, path, must=True):
        """the (unique) body with this definition path or instance name"""
        b = self.bodies.get(path)
        if b is not None:
            return b
        bs = self.by_path.get(path, [])
        if len(bs) == 1:
            return bs[0]
        if must:
            raise AnalysisError("anchor function %s %s" % (path, "is ambiguous" if bs else "not found"))
        return None


_cache = {}


def load(name="folia"):
    if name in _cache:
        return _cache[name]
    d, tag = facts_dir()
    c = Crate(os.path.join(d, name + ".json"))
    c.tag = tag
    _cache[name] = c
    return c


if __name__ == "__main__":
    d, tag = facts_dir()
    print(d)
