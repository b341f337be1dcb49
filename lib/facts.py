"""Load the MIR fact dump produced by the driver from /repo's current working tree."""
import json, os, hashlib, subprocess, sys, shutil, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, ".cache")


def tree_hash():
    """Hash of everything the extraction depends on (sources, manifests, driver)."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "crates"), os.path.join(VERIF, "driver", "src"),
             os.path.join(REPO, "CodeParser", "Data")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
             os.path.join(VERIF, "extract.sh"), os.path.join(VERIF, "driver", "Cargo.toml")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in files:
        try:
            b = open(f, "rb").read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + hashlib.sha256(b).digest())
    return h.hexdigest()[:24]


class BuildFailure(Exception):
    pass


def extract():
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash()
    out = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "done")):
            for e in os.listdir(CACHE):
                p = os.path.join(CACHE, e)
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
            r = subprocess.run([os.path.join(VERIF, "extract.sh"), out], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            need = [os.path.join(out, "wolfram_parser.json"), os.path.join(out, "wll", "codeparser_wll.json")]
            if r.returncode != 0 or not all(os.path.exists(x) for x in need):
                sys.stderr.write(r.stdout[-4000:])
                raise BuildFailure("fact extraction failed")
            open(os.path.join(out, "done"), "w").write(key)
    return out


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.fns = d["fns"]
        self.consts = d["consts"]
        self.impls = d["impls"]
        self._impl_index = None
        for k, f in self.fns.items():
            f["name"] = k

    # -- types -------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def adt_variants(self, name):
        return self.adts[name]["variants"]

    def variant_index(self, name, v):
        for i, x in enumerate(self.adts[name]["variants"]):
            if x["name"] == v:
                return i
        raise KeyError((name, v))

    def fidx(self, adt, field, variant=0):
        for i, x in enumerate(self.adts[adt]["variants"][variant]["fields"]):
            if x[0] == field:
                return i
        raise KeyError((adt, field))

    def has_field(self, adt, field):
        return adt in self.adts and any(x[0] == field for x in self.adts[adt]["variants"][0]["fields"])

    # -- lookup ------------------------------------------------------------
    def find(self, suffix, files=None):
        """functions whose path equals or ends with ::suffix"""
        r = [k for k in self.fns if k == suffix or k.endswith("::" + suffix)]
        return r

    def one(self, suffix):
        r = self.find(suffix)
        return r[0] if len(r) == 1 else None

    def impl_methods(self, trait_suffix, method):
        """[(self type string, fn path)] for every impl of the trait in this crate"""
        out = []
        for im in self.impls:
            if im["trait"] and (im["trait"] == trait_suffix or im["trait"].endswith("::" + trait_suffix)):
                for n, p in im["items"]:
                    if n == method:
                        out.append((self.tys(im["self"]), p))
        return out

    def loc(self, fn):
        f = self.fns[fn]
        return "%s:%s" % (f["file"], f["line"])

    def callees(self, fn):
        """resolved/declared callee paths with block index and terminator"""
        f = self.fns[fn]
        for bi, b in enumerate(f["blocks"]):
            if b.get("cleanup"):
                continue
            t = b["t"]
            if t["k"] == "call":
                k = t["f"].get("k")
                if k and "fn" in k:
                    yield bi, (k.get("res") or k["fn"]), k, t
                else:
                    yield bi, None, None, t


def load(which="wolfram_parser"):
    out = extract()
    if which == "wolfram_parser":
        return Facts(os.path.join(out, "wolfram_parser.json"))
    if which == "wll":
        return Facts(os.path.join(out, "wll", "codeparser_wll.json"))
    if which == "wll_parser":
        return Facts(os.path.join(out, "wll", "wolfram_parser.json"))
    raise KeyError(which)
