"""Abstract interpreter over the dumped MIR.

Disjunctive (trace-partitioned) abstract interpretation: scalars are constants or symbolic names with
an interval-set constraint, structs/enums are field maps over an optional symbolic base, references are
abstract locations.  Nothing of the analysed program is executed: unknown values stay symbolic, unknown
calls havoc what they can reach.  `policy` decides per callee whether to inline it or treat it as an
opaque primitive that is only recorded as an event.
"""
import itertools, os, time


class Sym:
    __slots__ = ("id", "_h")

    def __init__(self, id):
        self.id = id
        self._h = hash(("Sym", id))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Sym) and self._h == o._h and self.id == o.id)

    def __repr__(self):
        return pretty(self)


class Term:
    __slots__ = ("op", "args", "_h", "syms")

    def __init__(self, op, args):
        self.op = op
        self.args = tuple(args)
        self._h = hash(("Term", op, self.args))
        self.syms = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Term) and self._h == o._h and self.op == o.op and self.args == o.args)

    def __repr__(self):
        return pretty(self)


class Adt:
    """struct/enum/tuple/array value. variant None: struct or unknown. base: Sym for unlisted fields."""
    __slots__ = ("name", "variant", "fields", "base", "_h")

    def __init__(self, name, variant, fields, base=None):
        self.name = name
        self.variant = variant
        self.fields = fields  # dict
        self.base = base
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.name, self.variant, tuple(sorted(self.fields.items(), key=lambda x: str(x[0]))), self.base))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Adt) and self.name == o.name and self.variant == o.variant
                             and self.fields == o.fields and self.base == o.base)

    def __repr__(self):
        return pretty(self)


class Ref:
    __slots__ = ("obj", "path", "_h")

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = path
        self._h = hash(("Ref", obj, path))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Ref) and self.obj == o.obj and self.path == o.path)

    def __repr__(self):
        return pretty(self)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(("Str", self.s))

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __repr__(self):
        return repr(self.s)


class Fn:
    __slots__ = ("path", "caps", "k")

    def __init__(self, path, caps=None, k=None):
        self.path = path
        self.caps = caps
        self.k = k

    def __hash__(self):
        return hash(("Fn", self.path, self.caps))

    def __eq__(self, o):
        return isinstance(o, Fn) and o.path == self.path and o.caps == self.caps

    def __repr__(self):
        return "fn " + self.path


class Tab:
    """constant integer table"""
    __slots__ = ("f", "_h")

    def __init__(self, f):
        self.f = tuple(f[i] for i in range(len(f)))
        self._h = hash(self.f)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Tab) and o._h == self._h and o.f == self.f

    def __repr__(self):
        return "table[%d]" % len(self.f)


UNIT = Adt("()", None, {})


def pid(i, d=0):
    if d > 6:
        return "…"
    if isinstance(i, tuple):
        if i and i[0] == "." and len(i) == 3:
            return pid(i[1], d + 1) + "." + str(i[2])
        if i and i[0] == "*" and len(i) == 2:
            return "*" + pid(i[1], d + 1)
        return "(" + " ".join(pid(x, d + 1) for x in i) + ")"
    return str(i)


def pretty(v, d=0):
    if d > 5:
        return "…"
    if isinstance(v, Sym):
        return "?" + pid(v.id)
    if isinstance(v, Term):
        return "%s(%s)" % (v.op, ", ".join(pretty(a, d + 1) for a in v.args))
    if isinstance(v, Adt):
        n = v.name.split("::")[-1]
        if v.variant:
            n += "::" + v.variant
        f = ", ".join("%s" % pretty(x, d + 1) for k, x in list(v.fields.items())[:6])
        return "%s{%s%s}" % (n, f, "; ..%s" % pretty(v.base, d + 1) if v.base else "")
    if isinstance(v, Ref):
        return "&" + pid(v.obj) + "".join("." + str(p[1]) if isinstance(p, tuple) else str(p) for p in v.path)
    return repr(v)


# ---------------------------------------------------------------- interval sets
FULL = None


def r_int(a, b):
    out = []
    for lo, hi in a:
        for l2, h2 in b:
            l, h = max(lo, l2), min(hi, h2)
            if l <= h:
                out.append((l, h))
    return tuple(out)


def r_norm(a):
    a = sorted(a)
    out = []
    for lo, hi in a:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def r_minus(a, b):
    out = list(a)
    for l2, h2 in b:
        nx = []
        for lo, hi in out:
            if h2 < lo or l2 > hi:
                nx.append((lo, hi))
                continue
            if lo < l2:
                nx.append((lo, l2 - 1))
            if hi > h2:
                nx.append((h2 + 1, hi))
        out = nx
    return tuple(out)


INF = 1 << 130


class Split(Exception):
    def __init__(self, val, parts):
        self.val = val
        self.parts = parts  # list of range tuples


class Infeasible(Exception):
    pass


class Frame:
    __slots__ = ("fn", "fid", "bb", "dest", "ret", "sub")

    def __init__(self, fn, fid, bb, dest, ret, sub=()):
        self.fn, self.fid, self.bb, self.dest, self.ret, self.sub = fn, fid, bb, dest, ret, sub


class State:
    __slots__ = ("mem", "cons", "frames", "ev", "visits", "a", "n", "ret", "notes")

    def __init__(self):
        self.mem = {}
        self.cons = {}
        self.frames = []
        self.ev = ()
        self.visits = {}
        self.a = None
        self.n = 0
        self.ret = None
        self.notes = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.cons = dict(self.cons)
        s.frames = [Frame(f.fn, f.fid, f.bb, f.dest, f.ret, f.sub) for f in self.frames]
        s.ev = self.ev
        s.visits = dict(self.visits)
        s.a = self.a
        s.n = self.n
        s.notes = self.notes
        return s

    def fresh(self, tag):
        self.n += 1
        return Sym((tag, self.n))

    def events(self):
        out = []
        e = self.ev
        while e:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def emit(self, *e):
        self.ev = (self.ev, e)


class Outcome:
    __slots__ = ("kind", "state", "ret", "why")

    def __init__(self, kind, state, ret, why=None):
        self.kind, self.state, self.ret, self.why = kind, state, ret, why


def implied(k):
    """a comparison of a symbol with a constant: its truth is recorded exactly in the symbol's interval set"""
    def leaf(x):
        return isinstance(x, Sym) or (isinstance(x, Term) and x.op == "tab" and isinstance(x.args[1], Sym))
    if not isinstance(k, Term):
        return False
    if k.op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and len(k.args) == 2:
        return (leaf(k.args[0]) and isinstance(k.args[1], int)) or (leaf(k.args[1]) and isinstance(k.args[0], int))
    return k.op == "tab" and leaf(k)


def liveness(f):
    bl = f["blocks"]
    n = len(f["locals"])
    borrowed = set()
    gens, kills = [], []

    def place(pl, use, out):
        if use or len(pl) > 1:
            out.add(pl[0])
        for e in pl[1:]:
            if isinstance(e, list) and e and e[0] == "i" and isinstance(e[1], int):
                out.add(e[1])

    def ops(x, out):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("c", "m") and isinstance(v, list) and v and isinstance(v[0], int):
                    place(v, True, out)
                elif k != "k":
                    ops(v, out)
        elif isinstance(x, list):
            for v in x:
                ops(v, out)
    for b in bl:
        gen, kill = set(), set()

        def use(out):
            gen.update(out - kill)
        for s in b["s"]:
            o = set()
            if s[0] == "=":
                rv = s[2]
                if rv[0] in ("ref", "rawptr"):
                    pl = rv[2] if rv[0] == "ref" else rv[1]
                    place(pl, True, o)
                    if "*" not in pl:
                        borrowed.add(pl[0])
                elif rv[0] == "disc":
                    place(rv[1], True, o)
                else:
                    ops(rv, o)
                place(s[1], False, o)
                use(o)
                if len(s[1]) == 1:
                    kill.add(s[1][0])
            elif s[0] == "sd":
                place(s[1], True, o)
                use(o)
            elif s[0] == "dead":
                kill.add(s[1])
        t = b["t"]
        o = set()
        ops({k: v for k, v in t.items() if k not in ("d", "p", "c")}, o)
        if isinstance(t.get("c"), dict):
            ops(t["c"], o)
        if isinstance(t.get("p"), list):
            place(t["p"], True, o)
        if isinstance(t.get("d"), list):
            place(t["d"], False, o)
        if t["k"] == "return":
            o.add(0)
        use(o)
        gens.append(gen)
        kills.append(kill)
    live = [set() for _ in bl]
    succ = [succs(b["t"]) for b in bl]
    ch = True
    while ch:
        ch = False
        for i in range(len(bl) - 1, -1, -1):
            o = set()
            for j in succ[i]:
                o |= live[j]
            v = gens[i] | (o - kills[i])
            if v != live[i]:
                live[i] = v
                ch = True
    every = set(range(n)) - borrowed
    return [sorted(every - l) for l in live]


def succs(t):
    r = []
    for k in ("to", "else", "ret"):
        if isinstance(t.get(k), int):
            r.append(t[k])
    for a in t.get("arms", ()):
        r.append(a[1])
    return r


RECORD = os.environ.get("VERIF_OPAQUE_RECORD")
# building text for messages: results flow into strings only
TEXT = ("core::panicking::", "core::fmt::", "alloc::fmt::", "std::io::", "alloc::string::String::push", "alloc::string::String::new", "alloc::string::ToString", "alloc::str::join", "alloc::slice::join",
        "alloc::slice::concat", "alloc::str::repeat", "alloc::string::String::from", "alloc::string::String::with_capacity", "alloc::string::String::extend")
_KNOWN = None


def structural(v):
    if isinstance(v, Term):
        if v.op in ("Eq", "Ne") and any(isinstance(x, Sym) for x in v.args):
            return False            # an unknown input compared with something: both outcomes are possible
        return any(structural(x) for x in v.args)
    return isinstance(v, (Adt, Ref)) and not (isinstance(v, Adt) and v.base is not None and not v.fields)


def known_opaque():
    global _KNOWN
    if _KNOWN is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "opaque.txt")) as f:
            _KNOWN = set(x.rstrip("\n") for x in f)
    return _KNOWN


START = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "600"))


class Limit(Exception):
    pass


class Interp:
    def __init__(self, facts, policy=None, max_depth=40, loop_limit=2, max_states=60000, inline_default=True,
                 index_split=True, models=None, keep=None):
        self.F = facts
        self.policy = policy
        self.max_depth = max_depth
        self.max_rec = 2
        self.loop_limit = loop_limit
        self._order = {}
        self._live = {}
        self.max_states = max_states
        self.inline_default = inline_default
        self.index_split = index_split
        self.fidc = itertools.count(1)
        # constants are immutable: one store per loaded program
        self.constmem = facts.__dict__.setdefault("_constmem", {})
        self.nstates = 0
        self.inlined = set()
        self.opaque = set()
        self.pre_cache = {}
        from models import MODELS
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.ret_hook = None
        self.sym_rng = None
        self.keep = keep

    # ---------------------------------------------------------------- constants
    def cv(self, v, state=None, t=None):
        """decoded JSON const -> value"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, str):
            return Sym(("const?", v))
        if "str" in v:
            return Str(v["str"])
        if "fn" in v:
            return Fn(v["fn"])
        if "static" in v:
            return Ref(("static", v["static"]))
        if "ref" in v:
            o = ("const", len(self.constmem) + 1)
            self.constmem[o] = None
            self.constmem[o] = self.cv(v["ref"])
            r = Ref(o)
            return r
        if "arr" in v:
            return Adt("[]", None, {i: self.cv(x) for i, x in enumerate(v["arr"])})
        if "tup" in v:
            return Adt("()", None, {i: self.cv(x) for i, x in enumerate(v["tup"])})
        if "adt" in v:
            if v["adt"] == "core::num::nonzero::NonZero":
                x = v["f"][0]
                while isinstance(x, dict):
                    x = x["f"][0]
                return x
            return Adt(v["adt"], v.get("v"), {i: self.cv(x) for i, x in enumerate(v.get("f", []))})
        return Sym(("const?", str(v)[:40]))

    # ---------------------------------------------------------------- generics
    def tsub(self, ti, sub):
        """type index with the frame's generic parameters replaced"""
        F = self.F
        key = (ti, sub)
        c = F.__dict__.setdefault("_tsub", {})
        if key in c:
            return c[key]
        t = F.types[ti]
        m = dict(sub)
        r = ti
        if t["k"] == "param":
            r = m.get(t["name"], ti)
        else:
            n = dict(t)
            ch = False
            if "args" in t:
                a = [self.tsub(x, sub) for x in t["args"]]
                ch = a != t["args"]
                n["args"] = a
            if isinstance(t.get("t"), int):
                x = self.tsub(t["t"], sub)
                ch = ch or x != t["t"]
                n["t"] = x
            if ch:
                import re
                n["s"] = re.sub(r"\b(%s)\b" % "|".join(re.escape(k) for k in m),
                                lambda q: F.types[m[q.group(1)]]["s"], t["s"])
                idx = F.__dict__.setdefault("_tidx", None)
                if idx is None:
                    idx = F._tidx = {x["s"]: i for i, x in enumerate(F.types)}
                r = idx.get(n["s"])
                if r is None:
                    F.types.append(n)
                    r = idx[n["s"]] = len(F.types) - 1
        c[key] = r
        return r

    def inst(self, k, sub):
        """call constant k with generic parameters of the calling frame replaced; trait methods resolved"""
        c = k.setdefault("_inst", {})
        if sub in c:
            return c[sub]
        ga = [self.tsub(x, sub) for x in k.get("ga", [])]
        r = k
        if ga != k.get("ga", []) or k.get("rga"):
            r = {x: y for x, y in k.items() if x != "_inst"}
            r["ga"] = ga
            if k.get("rga") is not None:
                r["rga"] = [self.tsub(x, sub) for x in k["rga"]]
            if r.get("res") is None and k.get("trait"):
                p, rga = self.resolve_method(k["trait"], k["fn"], ga)
                if p:
                    r["res"] = p
                    r["rga"] = rga
        c[sub] = r
        return r

    def unify(self, pat, ti, m):
        a, b = self.F.types[pat], self.F.types[ti]
        if a["k"] == "param":
            if a["name"] in m:
                return m[a["name"]] == ti or self.F.types[m[a["name"]]]["s"] == b["s"]
            m[a["name"]] = ti
            return True
        if a["k"] != b["k"]:
            return False
        if a["k"] == "adt":
            return a["adt"] == b["adt"] and len(a["args"]) == len(b["args"]) and all(self.unify(x, y, m) for x, y in zip(a["args"], b["args"]))
        if a["k"] in ("ref", "ptr", "slice", "array"):
            return a.get("mut") == b.get("mut") and self.unify(a["t"], b["t"], m)
        if a["k"] == "tuple":
            return len(a["args"]) == len(b["args"]) and all(self.unify(x, y, m) for x, y in zip(a["args"], b["args"]))
        return a["s"] == b["s"]

    def resolve_method(self, trait, fn, ga):
        meth = fn.rsplit("::", 1)[1]
        for im in self.F.impls:
            if im["trait"] != trait:
                continue
            m = {}
            ta = im["targs"]
            if len(ta) > len(ga) or not all(self.unify(x, y, m) for x, y in zip(ta, ga)):
                continue
            for n, p in im["items"]:
                if n == meth and p in self.F.fns:
                    names = self.F.fns[p].get("gens", [])
                    mg = ga[len(ta):]
                    own = [x for x in names if x not in m]
                    mm = dict(m)
                    mm.update(zip(own, mg))
                    return p, [mm.get(x, ga[0]) for x in names]
            if fn in self.F.fns:
                return fn, ga
        return None, None

    def fsub(self, name, k):
        if not k:
            return ()
        if "sub" in k:
            return k["sub"]
        names = self.F.fns[name].get("gens") or ()
        if not names:
            return ()
        a = k.get("rga") if k.get("res") == name and k.get("rga") is not None else k.get("ga") if k.get("fn") == name else None
        if not a or len(a) < len(names):
            return ()
        return tuple((n, t) for n, t in zip(names, a) if not (self.F.types[t]["k"] == "param"))

    # ---------------------------------------------------------------- memory
    def load_obj(self, st, obj):
        if obj in st.mem:
            return st.mem[obj]
        if obj in self.constmem:
            return self.constmem[obj]
        if isinstance(obj, tuple) and obj and obj[0] == "static":
            c = self.F.consts.get(obj[1])
            if c is not None and not c.get("mutable"):
                v = self.cv(c["v"])
                self.constmem[obj] = v
                return v
        if isinstance(obj, tuple) and len(obj) == 2 and obj[0] == "*" and isinstance(obj[1], (Str, Fn)):
            return obj[1]
        return Sym(("*", obj[1])) if isinstance(obj, tuple) and obj and obj[0] == "*" else Sym(("obj", obj))

    def proj_read(self, st, v, p):
        kind = p[0]
        if isinstance(v, Adt):
            if kind == "f":
                if p[1] in v.fields:
                    return v.fields[p[1]]
                if v.base is not None:
                    return Sym((".", v.base.id, p[1]))
                return Sym((".", ("adt", v.name, v.variant), p[1]))
            if kind == "v":
                if v.variant is not None and v.name in self.F.adts:
                    if self.F.variant_index(v.name, v.variant) != p[1]:
                        raise Infeasible()
                    return v
                if v.base is not None and not v.fields:
                    return Sym(("as", v.base.id, p[1]))
                return v
            if kind == "i":
                k = p[1]
                if isinstance(k, int):
                    if k in v.fields:
                        return v.fields[k]
                    if v.base is not None:
                        return Sym(("[]", v.base.id, k))
                    return Sym(("[]", "oob", k))
                if v.fields and v.base is None and self.index_split:
                    # partition the index by element value
                    groups = {}
                    for i, x in v.fields.items():
                        groups.setdefault(x, []).append((i, i))
                    rng = self.rng(st, k)
                    if len(groups) == 1:
                        return next(iter(groups.values())) and next(iter(groups.keys()))
                    parts = []
                    for x, rs in groups.items():
                        rr = r_int(r_norm(rs), rng)
                        if rr:
                            parts.append((rr, x))
                    if len(parts) == 1:
                        return parts[0][1]
                    if not parts:
                        raise Infeasible()
                    if len(parts) > 8 and all(isinstance(q[1], int) for q in parts):
                        return Term("tab", (Tab(v.fields), k))
                    if len(parts) <= 600:
                        raise Split(k, [q[0] for q in parts])
                return Sym(("[]", "arr", k))
            return Sym(("proj", v, p))
        if isinstance(v, Sym):
            if kind == "f":
                return Sym((".", v.id, p[1]))
            if kind == "v":
                return Sym(("as", v.id, p[1]))
            if kind == "i":
                return Sym(("[]", v.id, p[1]))
            return Sym(("proj", v.id, p))
        if isinstance(v, Term):
            return Sym(("." if kind == "f" else kind, v, p[1]))
        if isinstance(v, Fn) and kind == "f":
            if v.caps is not None and p[1] < len(v.caps):
                return v.caps[p[1]]
            return Sym((".", ("fn", v.path), p[1]))
        return Sym(("proj", v, p))

    def read(self, st, loc):
        obj, path = loc
        v = self.load_obj(st, obj)
        sub = cut = None
        for p in path:
            if p[0] == "n":
                cut = p[1]
                continue
            cut = None
            if p[0] == "s":
                sub = p[1] if sub is None else self.binop(st, "Add", sub, p[1])
                continue
            if sub is not None and p[0] in ("i", "f"):
                p = (p[0], self.binop(st, "Add", sub, p[1]))
                sub = None
            v = self.proj_read(st, v, p)
        if sub is not None and (cut is None or isinstance(cut, int)) and isinstance(sub, int) and isinstance(v, Adt) and v.name == "[]" \
                and v.base is None and 0 <= sub <= len(v.fields) and all(i in v.fields for i in range(len(v.fields))):
            hi = len(v.fields) if cut is None else sub + cut
            return Adt("[]", None, {i - sub: x for i, x in v.fields.items() if sub <= i < hi})
        if cut is not None:
            return Term("subslice", (v, 0 if sub is None else sub, cut))
        if sub is not None and sub != 0:
            return Term("subslice", (v, sub))
        return v

    def upd(self, st, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if p[0] == "v":
            # enum downcast: write inside the variant
            if isinstance(v, Sym):
                inner = Adt("?", None, {}, Sym(("as", v.id, p[1])))
                return self.upd(st, inner, path[1:], nv)
            return self.upd(st, v, path[1:], nv)
        if isinstance(v, Adt):
            if p[0] in ("f", "i"):
                if not isinstance(p[1], int):
                    return st.fresh("havoc-index")
                f = dict(v.fields)
                f[p[1]] = self.upd(st, self.proj_read(st, v, p), path[1:], nv)
                return Adt(v.name, v.variant, f, v.base)
            return st.fresh("upd?")
        if isinstance(v, Sym):
            if p[0] in ("f", "i") and isinstance(p[1], int):
                return Adt("?", None, {p[1]: self.upd(st, self.proj_read(st, v, p), path[1:], nv)}, v)
            return st.fresh("havoc")
        return st.fresh("havoc")

    def write(self, st, loc, nv):
        obj, path = loc
        if not path:
            st.mem[obj] = nv
            return
        v = self.load_obj(st, obj)
        st.mem[obj] = self.upd(st, v, path, nv)

    def place(self, st, fr, pl):
        obj = (fr.fid, pl[0])
        path = ()
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, (obj, path))
                obj, path = self.deref(st, v)
            elif isinstance(e, int):
                path = path + (("f", e),)
            elif isinstance(e, list):
                if e[0] in ("c", "s", "i"):
                    w = self.read(st, (obj, path))
                    if isinstance(w, Adt) and w.name == "vec" and w.base is None and isinstance(w.fields.get(0), Adt):
                        path = path + (("f", 0),)
                if e[0] == "v":
                    path = path + (("v", e[1]),)
                elif e[0] == "i":
                    iv = self.read(st, ((fr.fid, e[1]), ()))
                    path = path + (("i", iv),)
                elif e[0] in ("c", "s") and self.known_len(st, obj, path) is not None:
                    k = self.known_len(st, obj, path)
                    if e[0] == "c":
                        path = path + (("i", k - e[1] if e[2] else e[1]),)
                    else:
                        hi = k - e[2] if e[3] else e[2]
                        path = path + (("s", e[1]),) + ((("n", hi - e[1]),) if hi != k else ())
                elif e[0] == "c":
                    path = path + ((("i", e[1]) if not e[2] else ("i", ("end", e[1]))),)
                else:
                    path = path + (("s?", tuple(e[1:])),)
            else:
                path = path + (("?", 0),)
        return obj, path

    def known_len(self, st, obj, path):
        v = self.read(st, (obj, path))
        if isinstance(v, Adt) and v.name == "[]" and v.fields and v.base is None and all(i in v.fields for i in range(len(v.fields))):
            return len(v.fields)
        return None

    def deref(self, st, v):
        if isinstance(v, Ref):
            return v.obj, v.path
        if isinstance(v, Adt) and v.name.endswith("boxed::Box"):
            return self.deref(st, v.fields.get(0, Sym(("box",))))
        if isinstance(v, Adt) and len(v.fields) >= 1 and 0 in v.fields and v.name.split("::")[-1] in ("Unique", "NonNull"):
            return self.deref(st, v.fields[0])
        return ("*", v.id if isinstance(v, Sym) else v), ()

    # ---------------------------------------------------------------- scalars
    def tyrange(self, ti):
        t = self.F.types[ti]
        k = t["k"]
        if k == "bool":
            return ((0, 1),)
        if k == "char":
            return ((0, 0xD7FF), (0xE000, 0x10FFFF))
        if k == "uint":
            return ((0, (1 << t["bits"]) - 1),)
        if k == "int":
            b = t["bits"]
            return ((-(1 << (b - 1)), (1 << (b - 1)) - 1),)
        return ((-INF, INF),)

    def rng(self, st, v):
        if isinstance(v, int):
            return ((v, v),)
        if isinstance(v, (Sym, Term)):
            c = st.cons.get(v)
            if c is not None:
                return c
            if self.sym_rng is not None:
                c = self.sym_rng(v)
                if c is not None:
                    return c
            if isinstance(v, Term):
                r = self.term_rng(st, v)
                if r is not None:
                    return r
        return ((-INF, INF),)

    def term_rng(self, st, t):
        op = t.op
        if op == "tab":
            vs = [t.args[0].f[i] for lo, hi in self.rng(st, t.args[1]) for i in range(max(lo, 0), min(hi, len(t.args[0].f) - 1) + 1)]
            return r_norm([(x, x) for x in set(vs)]) if vs else None
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "not"):
            return ((0, 1),)
        if len(t.args) == 2 and op in ("Add", "Sub", "BitAnd", "Shl", "Shr", "BitOr", "Mul", "Rem"):
            a = self.rng(st, t.args[0])
            b = self.rng(st, t.args[1])
            al, ah, bl, bh = a[0][0], a[-1][1], b[0][0], b[-1][1]
            if op == "BitAnd":
                if al >= 0 or bl >= 0:
                    m = min([x for x, l in ((ah, al), (bh, bl)) if l >= 0])
                    return ((0, m),)
                return None
            if abs(al) >= INF or abs(ah) >= INF or abs(bl) >= INF or abs(bh) >= INF:
                return None
            if op == "Add":
                return tuple(sorted((l + bl, h + bh) for l, h in a)) if bl == bh else ((al + bl, ah + bh),)
            if op == "Sub":
                return tuple(sorted((l - bl, h - bl) for l, h in a)) if bl == bh else ((al - bh, ah - bl),)
            if op == "Mul" and al >= 0 and bl >= 0:
                return ((al * bl, ah * bh),)
            if op == "Shl" and al >= 0 and bl == bh and bl < 64:
                return ((al << bl, ah << bl),)
            if op == "Shr" and al >= 0 and bl == bh and bl < 64:
                return ((al >> bl, ah >> bl),)
            if op == "BitOr" and al >= 0 and bl >= 0:
                return ((max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1),)
            if op == "Rem" and al >= 0 and bl > 0:
                return ((0, bh - 1),)
        return None

    def constrain(self, st, v, rs):
        """restrict v to rs; returns False when infeasible"""
        if isinstance(v, int):
            return any(lo <= v <= hi for lo, hi in rs)
        if isinstance(v, (Sym, Term)):
            cur = self.rng(st, v)
            nr = r_norm(r_int(cur, rs))
            if not nr:
                return False
            st.cons[v] = nr
            if isinstance(v, Term) and len(v.args) >= 1:
                if v.op == "not" and len(nr) == 1 and nr[0][0] == nr[0][1]:
                    return self.constrain(st, v.args[0], ((1 - nr[0][0],) * 2,))
                if v.op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and len(nr) == 1 and nr[0][0] == nr[0][1]:
                    return self.assume_cmp(st, v.op, v.args[0], v.args[1], bool(nr[0][0]))
                if v.op == "Add" and isinstance(v.args[1], int):
                    c = v.args[1]
                    return self.constrain(st, v.args[0], tuple((l - c, h - c) for l, h in nr))
                if v.op == "Sub" and isinstance(v.args[1], int):
                    c = v.args[1]
                    return self.constrain(st, v.args[0], tuple((l + c, h + c) for l, h in nr))
                if v.op == "tab" and isinstance(v.args[1], (Sym, Term)):
                    ri = self.rng(st, v.args[1])
                    if ri and ri[-1][1] - ri[0][0] <= 4096:
                        tf = v.args[0].f
                        return self.constrain(st, v.args[1], r_norm([
                            (i, i) for lo, hi in ri for i in range(lo, hi + 1)
                            if 0 <= i < len(tf) and any(l <= tf[i] <= h for l, h in nr)]))
                if v.op == "BitOrBool" and nr == ((0, 0),):
                    return all(self.constrain(st, x, ((0, 0),)) for x in v.args)
                x = self.preimage(st, v, nr)
                if x is not None:
                    return self.constrain(st, x[0], x[1])
            return True
        return True

    def preimage(self, st, t, rs):
        """a term over one symbol of small range: the symbol and the exact set of its values for which the term lies in rs"""
        ss = t.syms
        if ss is None:
            ss = t.syms = term_syms(t)
        if len(ss) != 1:
            return None
        s = next(iter(ss))
        r = self.rng(st, s)
        if not r or r[0][0] <= -INF or r[-1][1] >= INF or r[-1][1] - r[0][0] > 0x120000:
            return None
        key = (t, r, rs)
        if key in self.pre_cache:
            return self.pre_cache[key]
        import termeval
        import numpy as np
        res = None
        try:
            vals = np.concatenate([np.arange(lo, hi + 1, dtype=np.int64) for lo, hi in r])
            with np.errstate(all="ignore"):
                e = termeval.ev(t, {s: vals})
            m = np.zeros(len(vals), dtype=bool)
            for lo, hi in rs:
                m |= (e >= max(lo, -(1 << 62))) & (e <= min(hi, 1 << 62))
            vs = vals[m]
            if len(vs) == 0:
                res = (s, ())
            else:
                cut = np.nonzero(np.diff(vs) != 1)[0]
                st_ = np.concatenate([[0], cut + 1])
                en = np.concatenate([cut, [len(vs) - 1]])
                if len(st_) <= 4096:
                    res = (s, tuple((int(vs[a]), int(vs[b])) for a, b in zip(st_, en)))
        except (termeval.Unevaluable, TypeError, ValueError, IndexError, ZeroDivisionError):
            res = None
        self.pre_cache[key] = res
        return res

    NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
    SWAP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}

    def assume_cmp(self, st, op, a, b, val):
        if not val:
            op = self.NEG[op]
        if isinstance(a, int) and not isinstance(b, int):
            a, b, op = b, a, self.SWAP[op]
        rb = self.rng(st, b)
        lo, hi = rb[0][0], rb[-1][1]
        if op == "Eq":
            if not self.constrain(st, a, rb):
                return False
            if not isinstance(b, int):
                return self.constrain(st, b, self.rng(st, a))
            return True
        if op == "Ne":
            if a == b:
                return False
            if isinstance(b, int):
                return self.constrain(st, a, r_minus(((-INF, INF),), ((b, b),)))
            return True
        ra = self.rng(st, a)
        alo, ahi = ra[0][0], ra[-1][1]
        if op == "Lt":
            ok = self.constrain(st, a, ((-INF, hi - 1),))
            return ok and (isinstance(b, int) or self.constrain(st, b, ((alo + 1, INF),)))
        if op == "Le":
            ok = self.constrain(st, a, ((-INF, hi),))
            return ok and (isinstance(b, int) or self.constrain(st, b, ((alo, INF),)))
        if op == "Gt":
            ok = self.constrain(st, a, ((lo + 1, INF),))
            return ok and (isinstance(b, int) or self.constrain(st, b, ((-INF, ahi - 1),)))
        if op == "Ge":
            ok = self.constrain(st, a, ((lo, INF),))
            return ok and (isinstance(b, int) or self.constrain(st, b, ((-INF, ahi),)))
        return True

    def cmp(self, st, op, a, b):
        if isinstance(a, (Sym, Term)) or isinstance(b, (Sym, Term)) or (isinstance(a, int) and isinstance(b, int)):
            if a == b:
                return int(op in ("Eq", "Le", "Ge"))
            # x+i against x+j (positions and addresses do not wrap)
            if not (isinstance(a, int) or isinstance(b, int)):
                (x, i), (y, j) = linear(a), linear(b)
                if x == y and isinstance(i, int) and isinstance(j, int):
                    return int({"Eq": i == j, "Ne": i != j, "Lt": i < j, "Le": i <= j, "Gt": i > j, "Ge": i >= j}[op])
                if x == y and addr_of(a) is not None:
                    return self.cmp(st, op, i, j)
            ra, rb = self.rng(st, a), self.rng(st, b)
            al, ah, bl, bh = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
            if op == "Eq":
                if not r_int(ra, rb):
                    return 0
                if al == ah == bl == bh:
                    return 1
            elif op == "Ne":
                if not r_int(ra, rb):
                    return 1
                if al == ah == bl == bh:
                    return 0
            elif op == "Lt":
                if ah < bl:
                    return 1
                if al >= bh:
                    return 0
            elif op == "Le":
                if ah <= bl:
                    return 1
                if al > bh:
                    return 0
            elif op == "Gt":
                if al > bh:
                    return 1
                if ah <= bl:
                    return 0
            elif op == "Ge":
                if al >= bh:
                    return 1
                if ah < bl:
                    return 0
            if isinstance(a, int):
                a, b, op = b, a, self.SWAP[op]
            # canonical: keep Eq/Lt/Ge etc as they are
            return Term(op, (a, b))
        if op == "Eq" and isinstance(a, (Fn, Str, Ref)) and type(a) is type(b):
            return int(a == b) if not isinstance(a, Ref) else Term("Eq", (a, b))
        return Term(op, (a, b))

    def binop(self, st, op, a, b, ty=None):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, op, a, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        wo = op.endswith("WithOverflow")
        bits = None
        signed = False
        if ty is not None:
            t = self.F.types[ty]
            if wo and t["k"] == "tuple":
                t = self.F.types[t["args"][0]]
            if t["k"] in ("uint", "int"):
                bits = t["bits"]
                signed = t["k"] == "int"
            if t["k"] == "bool":
                bits = 1
        r = None
        if isinstance(a, int) and isinstance(b, int):
            try:
                if base == "Add":
                    r = a + b
                elif base == "Sub":
                    r = a - b
                elif base == "Mul":
                    r = a * b
                elif base == "BitAnd":
                    r = a & b
                elif base == "BitOr":
                    r = a | b
                elif base == "BitXor":
                    r = a ^ b
                elif base == "Shl":
                    r = a << b
                elif base == "Shr":
                    r = a >> b
                elif base == "Div":
                    r = a // b if (a >= 0) == (b > 0) else -((-a) // b) if a < 0 else -(a // -b)
                elif base == "Rem":
                    r = a - b * int(a / b) if b else None
            except Exception:
                r = None
            ovf = 0
            if r is not None and bits:
                w = r & ((1 << bits) - 1)
                if signed and w >> (bits - 1):
                    w -= 1 << bits
                ovf = int(w != r)
                r = w
            if r is not None:
                return Adt("()", None, {0: r, 1: ovf}) if wo else r
        if r is None:
            if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if base in ("Add", "Sub", "Shl", "Shr", "BitOr", "BitXor") and b == 0:
                r = a
            elif base == "Mul" and b == 1:
                r = a
            elif base == "Sub" and a == b:
                r = 0
            elif base == "Sub" and addr_of(a) is not None and addr_of(a) == addr_of(b):
                r = self.binop(st, "Sub", addr_off(a), addr_off(b))
            elif base == "BitAnd" and bits == 1 and b == 1:
                r = a
            elif base == "BitAnd" and b == 0:
                r = 0
            elif base == "BitOr" and bits == 1 and b == 1:
                r = 1
            elif base == "Sub" and isinstance(b, int) and isinstance(a, Term) and a.op == "Add" and isinstance(a.args[1], int):
                r = self.binop(st, "Add", a.args[0], a.args[1] - b) if a.args[1] >= b else self.binop(st, "Sub", a.args[0], b - a.args[1])
            elif base == "Add" and isinstance(b, int) and isinstance(a, Term) and a.op == "Add" and isinstance(a.args[1], int):
                r = Term("Add", (a.args[0], a.args[1] + b))
            elif base == "Add" and isinstance(b, int) and isinstance(a, Term) and a.op == "Sub" and isinstance(a.args[1], int):
                d = b - a.args[1]
                r = a.args[0] if d == 0 else Term("Add", (a.args[0], d)) if d > 0 else Term("Sub", (a.args[0], -d))
            elif base in ("BitOr",) and bits == 1:
                r = Term("BitOrBool", (a, b))
            else:
                if base in ("BitOr", "Add", "BitAnd", "Mul") and not isinstance(b, int) and repr(a) > repr(b):
                    a, b = b, a
                r = Term(base, (a, b))
        return Adt("()", None, {0: r, 1: 0}) if wo else r

    # ---------------------------------------------------------------- operands
    def operand(self, st, fr, op):
        if "c" in op:
            return self.read(st, self.place(st, fr, op["c"]))
        if "m" in op:
            return self.read(st, self.place(st, fr, op["m"]))
        k = op["k"]
        if "fn" in k:
            if fr.sub:
                k = self.inst(k, fr.sub)
            return Fn(k.get("res") or k["fn"], None, k)
        c = k.get("_cv")
        if c is None:
            c = self.cv(k["v"])
            if isinstance(c, Sym) and k.get("path"):
                c = Sym(("const", k["path"]))
            k["_cv"] = c
        return c

    def disc(self, st, v, ti):
        t = self.F.types[ti]
        if isinstance(v, Adt) and v.variant is not None:
            for x in self.F.adts.get(v.name, {"variants": []})["variants"]:
                if x["name"] == v.variant:
                    return x["discr"]
        base = v
        if isinstance(v, Adt):
            base = v.base if v.base is not None else Sym(("adt", v.name))
        if isinstance(base, Sym):
            s = Sym(("disc", base.id))
        else:
            s = Sym(("disc", base))
        if s not in st.cons and t["k"] == "adt":
            a = self.F.adts.get(t["adt"])
            if a and a["kind"] == "enum":
                st.cons[s] = r_norm([(x["discr"], x["discr"]) for x in a["variants"]])
        return s

    def variant_of(self, st, v, adtname):
        """set of possible variant names of value v"""
        if isinstance(v, Adt) and v.variant is not None:
            return {v.variant}
        base = v.base if isinstance(v, Adt) and v.base is not None else v
        s = Sym(("disc", base.id if isinstance(base, Sym) else base))
        r = self.rng(st, s)
        return {x["name"] for x in self.F.adts[adtname]["variants"] if any(l <= x["discr"] <= h for l, h in r)}

    def rvalue(self, st, fr, rv, destty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            o, p = self.place(st, fr, rv[2])
            return Ref(o, p)
        if k == "rawptr":
            o, p = self.place(st, fr, rv[1])
            return Ref(o, p)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), destty)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                t = self.F.types[destty] if destty is not None else {"k": "bool"}
                if t["k"] == "bool":
                    if isinstance(a, int):
                        return 1 - a
                    if isinstance(a, Term) and a.op in self.NEG:
                        return Term(self.NEG[a.op], a.args)
                    if isinstance(a, Term) and a.op == "not":
                        return a.args[0]
                    return Term("not", (a,))
                if isinstance(a, int) and t["k"] == "uint":
                    return ~a & ((1 << t["bits"]) - 1)
                if t["k"] == "uint" and isinstance(a, (Sym, Term)):
                    return Term("Sub", ((1 << t["bits"]) - 1, a))
            if rv[1] == "Neg" and isinstance(a, int):
                return -a
            if rv[1] == "PtrMetadata":
                return self.length(st, a)
            return Term(rv[1], (a,))
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "IntToInt":
                dr = self.tyrange(rv[3])
                if isinstance(a, int):
                    lo, hi = dr[0][0], dr[-1][1]
                    if lo <= a <= hi:
                        return a
                    n = hi - lo + 1
                    w = (a - lo) % n + lo
                    return w
                if isinstance(a, (Sym, Term)):
                    r = self.rng(st, a)
                    if a not in st.cons and "k" not in rv[2]:
                        pl = rv[2].get("c") or rv[2].get("m")
                        if pl and len(pl) == 1:
                            sr = self.tyrange(self.F.fns[fr.fn]["locals"][pl[0]])
                            r = r_int(r, sr)
                            if isinstance(a, Sym):
                                st.cons[a] = r
                    if r and dr[0][0] <= r[0][0] and r[-1][1] <= dr[-1][1]:
                        return a
                    return Term("cast%s" % self.F.types[rv[3]]["s"], (a,))
                return a
            return a
        if k == "agg":
            kk = rv[1]
            ops = [self.operand(st, fr, o) for o in rv[2]]
            if kk[0] == "adt":
                return Adt(kk[1], kk[2], dict(enumerate(ops)))
            if kk[0] == "closure":
                return Fn(kk[1], tuple(ops), {"fn": kk[1], "sub": fr.sub} if fr.sub else None)
            if kk[0] == "tuple":
                return Adt("()", None, dict(enumerate(ops)))
            if kk[0] == "array":
                return Adt("[]", None, dict(enumerate(ops)))
            return st.fresh("agg")
        if k == "disc":
            return self.disc(st, self.read(st, self.place(st, fr, rv[1])), rv[2])
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            if rv[2] is not None and rv[2] <= 64:
                return Adt("[]", None, {i: v for i in range(rv[2])})
            return st.fresh("repeat")
        if k == "tls":
            return Ref(("tls", rv[1]))
        return st.fresh("rv")

    def length(self, st, v):
        if isinstance(v, Str):
            return len(v.s.encode())
        if isinstance(v, Ref):
            sub = None
            path = v.path
            if path and path[-1][0] == "n":
                return path[-1][1]
            while path and path[-1][0] == "s":
                sub = path[-1][1] if sub is None else self.binop(st, "Add", sub, path[-1][1])
                path = path[:-1]
            if sub is not None:
                return self.binop(st, "Sub", self.length(st, Ref(v.obj, path)), sub)
            t = self.read(st, (v.obj, v.path))
            if isinstance(t, Adt) and t.name == "vec" and t.base is None and isinstance(t.fields.get(0), Adt):
                t = t.fields[0]
            if isinstance(t, Adt) and t.name == "[]" and t.base is None:
                return len(t.fields)
            return Sym(("len", t.id if isinstance(t, Sym) else t))
        return Sym(("len", v.id if isinstance(v, Sym) else v))

    # ---------------------------------------------------------------- execution
    def start(self, fn, args, state=None):
        st = state or State()
        f = self.F.fns[fn]
        fid = next(self.fidc)
        st.frames.append(Frame(fn, fid, 0, None, None))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        return st

    def run(self, fn, args, state=None):
        """analyse fn from the given abstract arguments; returns the list of Outcomes"""
        st = self.start(fn, args, state)
        self.nstates = 0
        return self.run_frame(st)

    def run_frame(self, st):
        """run the top frame of st to completion"""
        out = []
        work = [st]
        rank, joins = self.order(st.frames[-1].fn)
        fid = st.frames[-1].fid
        while work:
            if len(work) == 1 or (len(work) > 48 and not rank[1]):
                s = work.pop()
            else:
                # lowest loop count, then reverse postorder, so that paths meet at join points
                bi = min(range(len(work)), key=lambda i: self.prio(work[i], fid, rank))
                s = work.pop(bi)
                bb = s.frames[-1].bb
                if bb in joins and any(o.frames[-1].bb == bb for o in work):
                    dead = self.dead_at(s.frames[-1].fn, bb)
                    for l in dead:
                        s.mem.pop((fid, l), None)
                    i = 0
                    while i < len(work):
                        o = work[i]
                        if o.frames[-1].bb == bb:
                            for l in dead:
                                o.mem.pop((fid, l), None)
                        if o.frames[-1].bb == bb and o.a == s.a and o.notes == s.notes and o.ev == s.ev:
                            m = self.try_join(s, o)
                            if m is not None:
                                s = m
                                work.pop(i)
                                i = 0
                                continue
                        i += 1
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Limit(s.frames[-1].fn)
            if self.nstates & 63 == 0 and time.time() - START > BUDGET:
                raise Limit("time budget used up in %s" % s.frames[-1].fn)
            try:
                self.step_block(s, work, out)
            except Infeasible:
                pass
        return out

    def prio(self, st, fid, rank):
        v = st.visits
        return (sum(v.get((fid, h), 0) for h in rank[1]), rank[0][st.frames[-1].bb])

    def order(self, fn):
        r = self._order.get(fn)
        if r is not None:
            return r
        bl = self.F.fns[fn]["blocks"]
        succ = [succs(b["t"]) for b in bl]
        seen, post, onst, heads = set(), [], set(), set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onst.add(0)
        while stack:
            b, it = stack[-1]
            for n in it:
                if n in onst:
                    heads.add(n)
                if n not in seen:
                    seen.add(n)
                    onst.add(n)
                    stack.append((n, iter(succ[n])))
                    break
            else:
                post.append(b)
                onst.discard(b)
                stack.pop()
        rk = {b: i for i, b in enumerate(reversed(post))}
        npred = {}
        for b in seen:
            for n in set(succ[b]):
                npred[n] = npred.get(n, 0) + 1
        r = self._order[fn] = ((rk, sorted(heads)), {b for b, c in npred.items() if c > 1} | heads)
        return r

    def dead_at(self, fn, bb):
        """never-borrowed locals that are not read again from the start of block bb"""
        lv = self._live.get(fn)
        if lv is None:
            lv = self._live[fn] = liveness(self.F.fns[fn])
        return lv[bb]

    def merge(self, outs):
        """join returned states that agree on memory, events and result, where the join is exact
        (at most one tracked symbol's interval set differs)"""
        groups = {}
        rest = []
        for o in outs:
            if o.kind != "return":
                rest.append(o)
                continue
            s = o.state
            key = (o.ret, s.ev, s.a, s.notes)
            groups.setdefault(key, []).append(o)
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            acc = []
            for o in g:
                cur = o
                changed = True
                while changed:
                    changed = False
                    for x in acc:
                        m = self.try_join(x.state, cur.state)
                        if m is not None:
                            acc.remove(x)
                            cur = Outcome("return", m, cur.ret)
                            changed = True
                            break
                acc.append(cur)
            res.extend(acc)
        return res + rest

    def try_join(self, a, b):
        if a.mem != b.mem:
            return None
        diff = None
        drop = []
        for k in set(a.cons) | set(b.cons):
            x, y = a.cons.get(k), b.cons.get(k)
            if x == y:
                continue
            if (self.keep is not None and not self.keep(k)) or implied(k):
                drop.append(k)
                continue
            if diff is not None:
                return None
            diff = k
        m = a.fork()
        for k in drop:
            m.cons.pop(k, None)
        if diff is not None:
            x, y = a.cons.get(diff), b.cons.get(diff)
            if x is None or y is None:
                m.cons.pop(diff, None)
            else:
                m.cons[diff] = r_norm(list(x) + list(y))
        for k, v in b.visits.items():
            if v > m.visits.get(k, 0):
                m.visits[k] = v
        m.n = max(a.n, b.n)
        return m

    def step_block(self, st, work, out):
        fr = st.frames[-1]
        f = self.F.fns[fr.fn]
        vk = (fr.fid, fr.bb)
        c = st.visits.get(vk, 0) + 1
        st.visits[vk] = c
        if c > self.loop_limit + 1:
            out.append(Outcome("cut", st, None, (fr.fn, fr.bb)))
            return
        b = f["blocks"][fr.bb]
        snap = None
        ss = b["s"]
        i = 0
        while i < len(ss):
            s = ss[i]
            try:
                if s[0] == "=":
                    dt = f["locals"][s[1][0]] if len(s[1]) == 1 else None
                    v = self.rvalue(st, fr, s[2], dt)
                    self.write(st, self.place(st, fr, s[1]), v)
                elif s[0] == "dead":
                    st.mem.pop((fr.fid, s[1]), None)
                elif s[0] == "sd":
                    loc = self.place(st, fr, s[1])
                    v = self.read(st, loc)
                    self.write(st, loc, st.fresh("setdisc"))
            except Split as e:
                self.do_split(st, e, work, vk)
                return
            i += 1
        try:
            self.terminator(st, fr, f, b["t"], work, out)
        except Split as e:
            self.do_split(st, e, work, vk)

    def do_split(self, st, e, work, vk):
        for p in e.parts:
            s2 = st.fork()
            s2.visits[vk] -= 1
            if self.constrain(s2, e.val, p):
                # replace singletons by constants lazily: rng() handles it
                work.append(s2)

    def goto(self, st, bb, work):
        st.frames[-1].bb = bb
        work.append(st)

    def terminator(self, st, fr, f, t, work, out):
        k = t["k"]
        if k == "goto":
            return self.goto(st, t["to"], work)
        if k == "switch":
            v = self.operand(st, fr, t["op"])
            if isinstance(v, Adt) and len(v.fields) == 1:
                v = v.fields[0]
            if isinstance(v, int):
                for val, bb in t["arms"]:
                    if val == v or (v < 0 and val == v + (1 << self.F.types[t["t"]].get("bits", 64))):
                        return self.goto(st, bb, work)
                return self.goto(st, t["else"], work)
            if isinstance(v, Term) and structural(v):
                self.unresolved(fr, v)
            dom = self.tyrange(t["t"])
            cur = r_int(self.rng(st, v), dom)
            rest = cur
            for val, bb in t["arms"]:
                if self.F.types[t["t"]]["k"] == "int":
                    bits = self.F.types[t["t"]]["bits"]
                    if val >> (bits - 1) & 1 and val > 0:
                        val -= 1 << bits
                rest = r_minus(rest, ((val, val),))
                if r_int(cur, ((val, val),)):
                    s2 = st.fork()
                    if self.constrain(s2, v, ((val, val),)):
                        s2.frames[-1].bb = bb
                        work.append(s2)
            if rest and f["blocks"][t["else"]]["t"]["k"] != "unreachable":
                if self.constrain(st, v, rest):
                    st.frames[-1].bb = t["else"]
                    work.append(st)
            return
        if k == "return":
            rv = st.mem.get((fr.fid, 0), UNIT)
            return self.do_return(st, rv, work, out)
        if k == "drop":
            return self.goto(st, t["to"], work)
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            exp = 1 if t["e"] else 0
            if isinstance(c, int):
                if c != exp:
                    out.append(Outcome("panic", st, None, ("assert", t["m"], fr.fn)))
                    return
            else:
                if t["m"] == "bounds" or t["m"].startswith(("divzero", "remzero")):
                    st.notes = st.notes + ((t["m"], fr.fn),)
                if not self.constrain(st, c, ((exp, exp),)):
                    out.append(Outcome("panic", st, None, ("assert", t["m"], fr.fn)))
                    return
            return self.goto(st, t["to"], work)
        if k == "unreachable":
            return
        if k == "call":
            return self.call(st, fr, f, t, work, out)
        # resume etc
        return

    def do_return(self, st, rv, work, out):
        fr = st.frames.pop()
        if self.ret_hook:
            self.ret_hook(self, st, fr, rv)
        for k in [k for k in st.mem if k[0] == fr.fid]:
            if not (isinstance(rv, Ref) and rv.obj == k):
                del st.mem[k]
        for k in [k for k in st.visits if k[0] == fr.fid]:
            del st.visits[k]
        st.ret = rv
        out.append(Outcome("return", st, rv))

    def finish_call(self, st, dest, to, rv, work, out, name):
        if to is None:
            out.append(Outcome("panic", st, None, ("call", name, st.frames[-1].fn)))
            return
        self.write(st, dest, rv)
        st.frames[-1].bb = to
        work.append(st)

    def call(self, st, fr, f, t, work, out):
        args = [self.operand(st, fr, a) for a in t["a"]]
        fv = self.operand(st, fr, t["f"])
        dest = self.place(st, fr, t["d"])
        k = fv.k if isinstance(fv, Fn) and fv.k else t["f"].get("k") or {}
        if isinstance(fv, Fn):
            name = fv.path
        else:
            name = None
        self.dispatch(st, fr, name, fv, k, args, dest, t["to"], work, out, t)

    def dispatch(self, st, fr, name, fv, k, args, dest, to, work, out, t):
        decl = k.get("fn") if k else None
        # virtual / unresolved trait call on a known dyn object
        if name is not None and self.policy:
            r = self.policy(self, st, name, decl, k, args, t)
            if r is not None:
                kind = r[0]
                if kind == "ret":
                    return self.finish_call(st, dest, to, r[1], work, out, name)
                if kind == "outs":
                    for s2, rv in r[1]:
                        self.finish_call(s2, dest, to, rv, work, out, name)
                    return
                if kind == "opaque":
                    return self.opaque_call(st, fr, name, args, dest, to, work, out, t)
                if kind == "inline":
                    nm = r[1] if len(r) > 1 else name
                    return self.inline(st, nm, args if len(r) < 3 else r[2], dest, to, work, out, k)
                if kind == "calls":
                    return self.call_value(st, fr, r[1], r[2], dest, to, work, out, t)
                if kind == "panic":
                    out.append(Outcome("panic", st, None, ("call", name, st.frames[-1].fn)))
                    return
                if kind == "stop":
                    out.append(Outcome("stop", st, r[1] if len(r) > 1 else None, name))
                    return
        if name is None:
            # call through a fn pointer / closure value
            return self.opaque_call(st, fr, "<ptr>", args, dest, to, work, out, t)
        m = self.models.get(decl) or self.models.get(name)
        if m is None and name not in self.F.fns:
            base = name
            m = self.models.get(strip_generics(base))
            if m is None and decl:
                m = self.models.get(strip_generics(decl))
        if m is not None and name not in self.F.fns:
            r = m(self, st, args, k)
            if r is not NotImplemented:
                if isinstance(r, tuple) and r and r[0] == "calls":
                    # call a closure value: ("calls", fnvalue, args)
                    return self.call_value(st, fr, r[1], r[2], dest, to, work, out, t)
                if isinstance(r, tuple) and r and r[0] == "outs":
                    for s2, rv in r[1]:
                        if isinstance(rv, tuple) and rv and rv[0] == "calls":
                            self.call_value(s2, s2.frames[-1], rv[1], rv[2], dest, to, work, out, t, wrap=rv[3] if len(rv) > 3 else None)
                        elif isinstance(rv, tuple) and rv and rv[0] == "panic":
                            out.append(Outcome("panic", s2, None, ("call", name, s2.frames[-1].fn)))
                        else:
                            self.finish_call(s2, dest, to, rv, work, out, name)
                    return
                return self.finish_call(st, dest, to, r, work, out, name)
        if decl in ("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut"):
            fval = args[0]
            if isinstance(fval, Ref):
                fval = self.read(st, (fval.obj, fval.path))
            tup = args[1]
            a = [tup.fields[i] for i in sorted(tup.fields)] if isinstance(tup, Adt) else [tup]
            return self.call_value(st, fr, fval, a, dest, to, work, out, t, selfarg=args[0])
        if name in self.F.fns and self.inline_default and len(st.frames) < self.max_depth \
                and sum(1 for x in st.frames if x.fn == name) < self.max_rec:
            return self.inline(st, name, args, dest, to, work, out, k)
        self.unmodelled(fr, name, k, args)
        return self.opaque_call(st, fr, name, args, dest, to, work, out, t)

    def unmodelled(self, fr, name, k, args):
        """a call whose effect is not known.  Where it is one of the calls listed in opaque.txt its result is known not to matter
        to the rules; any other makes the run undecided rather than a guess"""
        key = strip_generics(name or "?")
        if key.startswith(TEXT) or key.rsplit("::", 1)[-1] in ("fmt", "to_string", "drop") or self.ctor(name, args) is not None:
            return
        if key.rsplit("::", 1)[-1] in ("into", "from", "to_owned", "clone", "into_owned") and any("String" in self.F.types[g]["s"] or self.F.types[g]["s"] in ("str", "&str") for g in (k or {}).get("ga", [])):
            return
        pair = "%s | %s" % (fr.fn, name)
        if RECORD:
            with open(RECORD, "a") as f:
                f.write(pair + "\n")
            return
        if pair not in known_opaque():
            raise Limit("call of %s in %s is not modelled" % (key, fr.fn))

    def unresolved(self, fr, v):
        """a branch on a comparison of structured values that was not reduced to their parts: both sides would be guesses"""
        pair = "%s | ?%s" % (fr.fn, v.op)
        if RECORD:
            with open(RECORD, "a") as f:
                f.write(pair + "\n")
            return
        if pair not in known_opaque():
            raise Limit("branch on %s of structured values in %s: %s" % (v.op, fr.fn, v))

    def call_value(self, st, fr, fval, a, dest, to, work, out, t, selfarg=None, wrap=None):
        if wrap is not None:
            return self.call_wrapped(st, fr, fval, a, dest, to, work, out, t, selfarg, wrap)
        if isinstance(fval, Ref):
            fval = self.read(st, (fval.obj, fval.path))
        if isinstance(fval, Fn):
            name = fval.path
            if fval.caps is not None and name in self.F.fns:
                # closure: first param is self (by ref or value); pass a ref to a temp object or the value
                f = self.F.fns[name]
                lt = self.F.types[f["locals"][1]]
                if lt["k"] == "ref":
                    if selfarg is not None and isinstance(selfarg, Ref):
                        s0 = selfarg
                    else:
                        st.n += 1
                        o = ("clo", st.n)
                        st.mem[o] = fval
                        s0 = Ref(o)
                else:
                    s0 = fval
                return self.inline(st, name, [s0] + list(a), dest, to, work, out, fval.k)
            if name in self.F.fns or (fval.k is not None and 'ga' in fval.k) or name in self.models or strip_generics(name) in self.models:
                return self.dispatch(st, fr, name, fval, fval.k or {"fn": name}, list(a), dest, to, work, out, t)
            ctor = self.ctor(name, a)
            if ctor is not None:
                return self.finish_call(st, dest, to, ctor, work, out, name)
        return self.opaque_call(st, fr, "<ptr>", list(a), dest, to, work, out, t)

    def call_wrapped(self, st, fr, fval, a, dest, to, work, out, t, selfarg, wrap):
        """call fval(a) and continue with wrap(result)"""
        st.n += 1
        tmp = ("wrap", st.n)
        w2, o2 = [], []
        self.call_value(st, fr, fval, a, (tmp, ()), -1 if to is not None else None, w2, o2, t, selfarg=selfarg)
        out.extend(o2)
        for s in w2:
            v = s.mem.pop(tmp, None)
            if v is None:
                v = Sym(("wrap?", s.n))
            r = wrap(s, v)
            self.finish_call(s, dest, to, r, work, out, "wrap")

    def ctor(self, name, a):
        """tuple-struct / enum-variant constructor used as a function"""
        if name in self.F.adts and self.F.adts[name]["kind"] == "struct":
            return Adt(name, None, dict(enumerate(a)))
        if "::" in name:
            p, v = name.rsplit("::", 1)
            if p in self.F.adts and self.F.adts[p]["kind"] == "enum":
                return Adt(p, v, dict(enumerate(a)))
        return None

    def inline(self, st, name, args, dest, to, work, out, k=None):
        self.inlined.add(name)
        f = self.F.fns[name]
        fid = next(self.fidc)
        # deterministic frame ids within a path: position based
        st.frames.append(Frame(name, fid, 0, dest, to, self.fsub(name, k)))
        if f["argc"] != len(args) and len(args) >= 1:
            # rust-call ABI: last arg is a tuple of the rest
            last = args[-1]
            if isinstance(last, Adt) and last.name == "()":
                args = list(args[:-1]) + [last.fields[i] for i in sorted(last.fields)]
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        for o in self.merge(self.run_frame(st)):
            if o.kind == "return":
                self.finish_call(o.state, dest, to, o.ret, work, out, name)
            else:
                out.append(o)

    def opaque_call(self, st, fr, name, args, dest, to, work, out, t):
        self.opaque.add(name)
        ctor = self.ctor(name, args)
        if ctor is not None:
            return self.finish_call(st, dest, to, ctor, work, out, name)
        rv = self.havoc_call(st, name, args, mask=self.mutmask(fr, t))
        self.finish_call(st, dest, to, rv, work, out, name)

    def mutmask(self, fr, t):
        """per argument: may the callee write through it (by type: shared refs and scalars cannot)"""
        if "a" not in t:
            return None
        f = self.F.fns[fr.fn]
        m = []
        for a in t["a"]:
            pl = a.get("c") or a.get("m")
            if pl is not None and len(pl) == 1:
                ty = self.F.types[f["locals"][pl[0]]]
                m.append(not ((ty["k"] == "ref" and not ty["mut"]) or ty["k"] in ("int", "uint", "bool", "char")))
            elif pl is None:
                m.append(False)
            else:
                m.append(True)
        return m

    def havoc_call(self, st, name, args, emit=True, mask=None):
        st.n += 1
        if emit:
            st.emit("call", name, tuple(args))
        # havoc memory reachable through references passed (only non-const targets)
        for i, a in enumerate(args):
            if mask is None or i >= len(mask) or mask[i]:
                self.havoc_reach(st, a, ("hv", name, st.n), 0)
        return Sym(("ret", name, st.n))

    def havoc_reach(self, st, a, tag, d):
        if d > 4:
            return
        if isinstance(a, Ref):
            if a.obj in self.constmem or (isinstance(a.obj, tuple) and a.obj and a.obj[0] == "static"):
                return
            v = self.read(st, (a.obj, a.path))
            self.havoc_reach(st, v, tag, d + 1)
            if not isinstance(v, Fn):
                self.write(st, (a.obj, a.path), Sym((tag, d, a.obj, a.path)))
        elif isinstance(a, Adt):
            for x in a.fields.values():
                self.havoc_reach(st, x, tag, d + 1)
        elif isinstance(a, Fn) and a.caps:
            for x in a.caps:
                self.havoc_reach(st, x, tag, d + 1)
        elif isinstance(a, Sym):
            o = ("*", a.id)
            if o in st.mem:
                st.mem[o] = Sym((tag, d, o))


def term_syms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Sym):
            out.add(x)
        elif isinstance(x, Term):
            todo += x.args
        elif not isinstance(x, (int, Tab)):
            return frozenset((0, 1))      # not evaluable
    return frozenset(out)


def linear(v):
    if addr_of(v) is not None:
        return addr_of(v), addr_off(v)
    if isinstance(v, Term) and v.op == "Add" and isinstance(v.args[1], int):
        return v.args[0], v.args[1]
    if isinstance(v, Term) and v.op == "Sub" and isinstance(v.args[1], int):
        return v.args[0], -v.args[1]
    return v, 0


def addr_of(v):
    """slice-address base of a pointer value: addr or addr + offset"""
    if isinstance(v, Sym) and isinstance(v.id, tuple) and v.id and v.id[0] == "addr":
        return v
    if isinstance(v, Term) and v.op == "Add":
        for x in v.args:
            if isinstance(x, Sym) and isinstance(x.id, tuple) and x.id and x.id[0] == "addr":
                return x
    return None


def addr_off(v):
    if isinstance(v, Sym):
        return 0
    b = addr_of(v)
    return v.args[1] if v.args[0] == b else v.args[0]


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">":
            if i and s[i - 1] == "-":
                pass
            else:
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out)
    while "::::" in r:
        r = r.replace("::::", "::")
    return r.strip(":")
