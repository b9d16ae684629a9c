"""Builds the MIR fact extractor, runs it over /repo's current sources and loads the result.

The extraction is cached under /verif/build by a hash of every source file that can influence it,
so that the checks of one run share it; any change in /repo, the driver or the workspace rebuilds it.
"""
import fcntl
import glob
import hashlib
import json
import re
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CRATES = ["snips_nlu_lib", "snips_nlu_ffi", "snips_nlu_python_ffi"]
PKGS = ["snips-nlu-lib", "snips-nlu-ffi", "snips-nlu-python-ffi"]


class ExtractError(Exception):
    pass


def _files(root, exts):
    out = []
    for dp, dn, fn in os.walk(root):
        dn[:] = [d for d in dn if d not in ("target", ".git", "build", "node_modules", "__pycache__")]
        for f in fn:
            if f.endswith(exts):
                out.append(os.path.join(dp, f))
    return sorted(out)


def _hash():
    h = hashlib.sha256()
    fs = _files(REPO, (".rs",))
    fs += _files(os.path.join(VERIF, "driver"), (".rs", ".toml"))
    fs += _files(os.path.join(VERIF, "ws"), (".rs", ".toml", ".lock"))
    for f in fs:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ExtractError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def extract():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = _hash()
        out = os.path.join(BUILD, "facts", key)
        if os.path.exists(os.path.join(out, "done")):
            return out
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
                env.pop(k)
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
        _run(["cargo", "+nightly", "build", "--offline", "-q"], os.path.join(VERIF, "driver"), env,
             "building the fact extractor")
        if os.path.isdir(out):
            shutil.rmtree(out)
        for old in glob.glob(os.path.join(BUILD, "facts", "*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["FACTDUMP_OUT"] = out
        env["FACTDUMP_CRATES"] = ",".join(CRATES)
        env["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(BUILD, "driver", "debug", "factdump")
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        ws = os.path.join(VERIF, "ws")
        clean = ["cargo", "+nightly", "clean", "--offline", "-q"]
        for p in PKGS:
            clean += ["-p", p]
        subprocess.run(clean, cwd=ws, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _run(["cargo", "+nightly", "check", "--offline", "-q", "-p", "snips-nlu-python-ffi"], ws, env,
             "type-checking /repo")
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + ".json")):
                raise ExtractError("no facts for crate %s" % c)
        with open(os.path.join(out, "done"), "w") as f:
            f.write("ok")
        return out


def plain(path):
    """A path without its generic arguments (A::<T>::f is A::f)."""
    n = None
    while n != path:
        n, path = path, re.sub(r"::<[^<>]*>", "", path)
    return path


class Crate:
    def __init__(self, d):
        self.name = d["crate"]
        self.types = d["types"]
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.traits = d["traits"]
        self.errors = d.get("errors", [])
        self.files = d.get("files", [])
        self.raw = d
        for b in d["bodies"]:
            b["crate"] = self


class Program:
    """All extracted crates: bodies by id, with their types."""

    def __init__(self, outdir):
        self.crates = {}
        self.bodies = {}
        self.adts = {}
        for c in CRATES:
            with open(os.path.join(outdir, c + ".json")) as f:
                cr = Crate(json.load(f))
            self.crates[c] = cr
            self.bodies.update(cr.bodies)
            for k, v in cr.adts.items():
                self.adts.setdefault(k, v)
        self.lib = self.crates["snips_nlu_lib"]
        self.ffi = self.crates["snips_nlu_ffi"]
        self.pyffi = self.crates["snips_nlu_python_ffi"]

    def find(self, path_suffix, crate="snips_nlu_lib", optional=False):
        """The body (not a closure, not a promoted) whose path ends with the given suffix."""
        r = [b for b in self.crates[crate].bodies.values()
             if (b["path"] == path_suffix or b["path"].endswith("::" + path_suffix)
                 or "::<" in b["path"] and plain(b["path"]).endswith("::" + path_suffix)
                 or b["path"].endswith(path_suffix) and path_suffix.startswith("<"))
             and "{closure" not in b["id"] and "::promoted[" not in b["id"]]
        if len(r) == 1:
            return r[0]
        if optional and not r:
            return None
        raise KeyError("anchor %r: %d matching functions" % (path_suffix, len(r)))

    def method_of(self, d, self_ty):
        """The id of the body that a call of trait method `d` runs for a receiver of type `self_ty`."""
        if not hasattr(self, "_methods"):
            self._methods, self._by_path = {}, {}
            for cr in self.crates.values():
                for im in cr.impls:
                    t = (im.get("trait") or "").split("<")[0]
                    if t:
                        self._methods.setdefault((t, im["self"].split("<")[0]), {}).update({it["name"]: it["id"] for it in im["items"]})
                for b in cr.bodies.values():
                    if "{closure" not in b["id"] and "::promoted[" not in b["id"]:
                        self._by_path.setdefault(b["path"], b["id"])
        t, _, m = d.rpartition("::")
        r = self._methods.get((t, self_ty.split("<")[0]))
        if r is None:
            return None
        return r.get(m) or self._by_path.get(d)

    def trait_impls(self, trait_name, method, crate="snips_nlu_lib"):
        """[(self type string, body)] of the implementations of a trait method."""
        out = []
        cr = self.crates[crate]
        for im in cr.impls:
            t = im.get("trait") or ""
            if t.split("::")[-1].split("<")[0] == trait_name:
                for it in im["items"]:
                    if it["name"] == method and it["id"] in cr.bodies:
                        out.append((im["self"], cr.bodies[it["id"]]))
        return out


def load():
    return Program(extract())


if __name__ == "__main__":
    p = load()
    print({c: len(x.bodies) for c, x in p.crates.items()}, [len(x.errors) for x in p.crates.values()])
