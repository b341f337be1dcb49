"""Models of the standard-library functions the analysed crates use."""
from interp import Sym, Term, Adt, Ref, Str, Fn, UNIT, r_minus, r_int, r_norm

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def deref(I, st, v):
    if isinstance(v, Ref):
        return I.read(st, (v.obj, v.path))
    if isinstance(v, Sym):
        o, p = I.deref(st, v)
        return I.read(st, (o, p))
    return v


def some(v):
    return Adt(OPT, "Some", {0: v})


NONE = Adt(OPT, "None", {})


def ok(v):
    return Adt(RES, "Ok", {0: v})


def err(v):
    return Adt(RES, "Err", {0: v})


def split(I, st, v, adt, a, b):
    """split value v of a two-variant enum: -> [(state, variantname, payload)]"""
    if isinstance(v, Adt) and v.variant is not None:
        return [(st, v.variant, v.fields.get(0))]
    base = v.base if isinstance(v, Adt) and v.base is not None else v
    bid = base.id if isinstance(base, Sym) else base
    s = Sym(("disc", bid))
    if s not in st.cons:
        st.cons[s] = ((0, 1),)
    out = []
    for i, name in enumerate((a, b)):
        s2 = st.fork()
        if I.constrain(s2, s, ((i, i),)):
            out.append((s2, name, Sym((".", ("as", bid, i), 0))))
    return out


def opt(I, st, v):
    return split(I, st, v, OPT, "None", "Some")


def res(I, st, v):
    return split(I, st, v, RES, "Ok", "Err")


def outs(l):
    return ("outs", l)


@model("core::option::Option::unwrap", "core::option::Option::expect")
def _(I, st, a, k):
    r = []
    for s, n, p in opt(I, st, a[0]):
        r.append((s, p) if n == "Some" else (s, ("panic",)))
    return outs(r)


@model("core::result::Result::unwrap", "core::result::Result::expect")
def _(I, st, a, k):
    r = []
    for s, n, p in res(I, st, a[0]):
        r.append((s, p) if n == "Ok" else (s, ("panic",)))
    return outs(r)


@model("core::option::Option::is_some")
def _(I, st, a, k):
    return outs([(s, int(n == "Some")) for s, n, p in opt(I, st, deref(I, st, a[0]))])


@model("core::option::Option::is_none")
def _(I, st, a, k):
    return outs([(s, int(n == "None")) for s, n, p in opt(I, st, deref(I, st, a[0]))])


@model("core::result::Result::is_ok")
def _(I, st, a, k):
    return outs([(s, int(n == "Ok")) for s, n, p in res(I, st, deref(I, st, a[0]))])


@model("core::result::Result::is_err")
def _(I, st, a, k):
    return outs([(s, int(n == "Err")) for s, n, p in res(I, st, deref(I, st, a[0]))])


@model("core::result::Result::ok")
def _(I, st, a, k):
    return outs([(s, some(p) if n == "Ok" else NONE) for s, n, p in res(I, st, a[0])])


@model("core::option::Option::unwrap_or")
def _(I, st, a, k):
    return outs([(s, p if n == "Some" else a[1]) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::ok_or")
def _(I, st, a, k):
    return outs([(s, ok(p) if n == "Some" else err(a[1])) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NotImplemented
    v = deref(I, st, a[0])
    r = []
    for s, n, p in opt(I, st, v):
        if n == "None":
            r.append((s, NONE))
        else:
            r.append((s, some(Ref(a[0].obj, a[0].path + (("v", 1), ("f", 0))))))
    return outs(r)


def callv(fn, args, wrap=None):
    return ("calls", fn, args, wrap)


@model("core::option::Option::map")
def _(I, st, a, k):
    return outs([(s, NONE if n == "None" else callv(a[1], [p], lambda s_, v: some(v))) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::and_then")
def _(I, st, a, k):
    return outs([(s, NONE if n == "None" else callv(a[1], [p])) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::unwrap_or_else")
def _(I, st, a, k):
    return outs([(s, p if n == "Some" else callv(a[1], [])) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::map_or")
def _(I, st, a, k):
    return outs([(s, a[1] if n == "None" else callv(a[2], [p])) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::map_or_else")
def _(I, st, a, k):
    return outs([(s, callv(a[1], []) if n == "None" else callv(a[2], [p])) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::or_else")
def _(I, st, a, k):
    return outs([(s, callv(a[1], []) if n == "None" else some(p)) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::is_some_and")
def _(I, st, a, k):
    return outs([(s, 0 if n == "None" else callv(a[1], [p])) for s, n, p in opt(I, st, a[0])])


@model("core::option::Option::ok_or_else")
def _(I, st, a, k):
    return outs([(s, ok(p) if n == "Some" else callv(a[1], [], lambda s_, v: err(v))) for s, n, p in opt(I, st, a[0])])


@model("core::result::Result::map")
def _(I, st, a, k):
    return outs([(s, err(p) if n == "Err" else callv(a[1], [p], lambda s_, v: ok(v))) for s, n, p in res(I, st, a[0])])


@model("core::result::Result::map_err")
def _(I, st, a, k):
    return outs([(s, ok(p) if n == "Ok" else callv(a[1], [p], lambda s_, v: err(v))) for s, n, p in res(I, st, a[0])])


@model("core::result::Result::unwrap_or_else")
def _(I, st, a, k):
    return outs([(s, p if n == "Ok" else callv(a[1], [p])) for s, n, p in res(I, st, a[0])])


@model("core::option::Option::copied", "core::option::Option::cloned")
def _(I, st, a, k):
    l = list(opt(I, st, a[0]))
    if any(n == "Some" and not isinstance(p, Ref) for s, n, p in l):
        return NotImplemented
    return outs([(s, NONE if n == "None" else some(deref(I, s, p))) for s, n, p in l])


@model("core::option::Option::take")
def _(I, st, a, k):
    o, p = I.deref(st, a[0])
    old = I.read(st, (o, p))
    I.write(st, (o, p), NONE)
    return old


@model("core::ops::try_trait::Try::branch")
def _(I, st, a, k):
    v = a[0]
    t = I.F.types[k["ga"][0]] if k.get("ga") else None
    name = t.get("adt") if t else None
    if isinstance(v, Adt) and v.variant:
        name = v.name
    r = []
    if name == OPT:
        for s, n, p in opt(I, st, v):
            r.append((s, Adt(CF, "Continue", {0: p}) if n == "Some" else Adt(CF, "Break", {0: NONE})))
        return outs(r)
    if name == RES:
        for s, n, p in res(I, st, v):
            r.append((s, Adt(CF, "Continue", {0: p}) if n == "Ok" else Adt(CF, "Break", {0: err(p)})))
        return outs(r)
    return NotImplemented


@model("core::ops::try_trait::FromResidual::from_residual")
def _(I, st, a, k):
    return a[0]


@model("core::clone::Clone::clone")
def _(I, st, a, k):
    # structural clone of Copy-like/plain data: same abstract value
    return deref(I, st, a[0])


@model("core::convert::Into::into", "core::convert::From::from", "core::convert::num::from", "core::char::convert::from",
       "core::hint::must_use", "core::iter::traits::collect::IntoIterator::into_iter")
def _(I, st, a, k):
    if k.get("fn", "").endswith("into_iter"):
        return NotImplemented
    ga = [I.F.types[g] for g in k.get("ga", [])]
    if len(ga) == 2 and (ga[0]["s"] == ga[1]["s"] or (ga[0]["k"] in ("uint", "int", "bool", "char") and ga[1]["k"] in ("uint", "int", "bool", "char"))):
        return a[0]
    if k.get("fn", "").endswith("must_use"):
        return a[0]
    # user From impl behind Into
    if len(ga) == 2 and k.get("fn", "").endswith("::into"):
        for im in I.F.impls:
            if im["trait"] == "core::convert::From" and I.F.tys(im["self"]) == ga[1]["s"] and im["targs"] and len(im["targs"]) > 1 and I.F.tys(im["targs"][1]) == ga[0]["s"]:
                for n, p in im["items"]:
                    if n == "from" and p in I.F.fns:
                        return ("calls", Fn(p, None, {"fn": p}), a)
    return NotImplemented


@model("core::intrinsics::discriminant_value")
def _(I, st, a, k):
    v = deref(I, st, a[0])
    g = k.get("ga") or k.get("rga")
    return I.disc(st, v, g[0])


@model("core::cmp::impls::eq", "core::cmp::PartialEq::eq", "core::str::traits::eq")
def _(I, st, a, k):
    x, y = deref2(I, st, a[0]), deref2(I, st, a[1])
    return eqv(I, st, x, y)


@model("core::cmp::impls::ne", "core::cmp::PartialEq::ne")
def _(I, st, a, k):
    # derived types: `ne` is the default negation of the crate's own eq
    ga = k.get("ga") or []
    t = I.F.types[ga[0]] if ga else None
    x, y = deref2(I, st, a[0]), deref2(I, st, a[1])
    if t is not None and t["k"] == "adt":
        for im in I.F.impls:
            if im["trait"] == "core::cmp::PartialEq" and I.F.types[im["self"]].get("adt") == t["adt"]:
                for n, p in im["items"]:
                    if n == "eq" and p in I.F.fns and len(ga) > 1 and im.get("targs", [])[1:2] == ga[1:2]:
                        d = I.F.adts[t["adt"]]
                        if ga[0] == ga[1] and plain(x) and plain(y):
                            return int(x != y)
                        if ga[0] == ga[1] and d["kind"] == "enum" and all(not v["fields"] for v in d["variants"]):
                            dx = I.disc(st, x, ga[0])
                            dy = I.disc(st, y, ga[0])
                            return I.cmp(st, "Ne", dx, dy)
                        return outs([(st, callv(Fn(p), list(a), wrap=lambda s, v: negate(I, v)))])
    return negate(I, eqv(I, st, x, y))


def negate(I, r):
    if isinstance(r, int):
        return 1 - r
    if isinstance(r, Term) and r.op in I.NEG:
        return Term(I.NEG[r.op], r.args)
    return Term("not", (r,))


def plain(v):
    if isinstance(v, (int, Str, Fn)):
        return True
    if isinstance(v, Adt):
        return v.base is None and all(plain(x) for x in v.fields.values())
    return False


def deref2(I, st, v):
    n = 0
    while isinstance(v, Ref) and n < 4:
        v = I.read(st, (v.obj, v.path))
        n += 1
    return v


def eqv(I, st, x, y):
    # references compare by what they point at
    if isinstance(x, Ref):
        x = deref2(I, st, x)
    if isinstance(y, Ref):
        y = deref2(I, st, y)
    if isinstance(x, Term) and isinstance(y, Term) and x.op == y.op == "subslice" and x.args[0] == y.args[0] \
            and len(x.args) == len(y.args) == 2 and isinstance(x.args[1], int) and isinstance(y.args[1], int):
        # suffixes of one buffer: equal exactly when they start at the same place (their lengths differ otherwise)
        return int(x.args[1] == y.args[1])
    if isinstance(x, (int, Sym, Term)) and isinstance(y, (int, Sym, Term)):
        return I.cmp(st, "Eq", x, y)
    if plain(x) and plain(y):
        return int(x == y)
    if isinstance(x, Adt) and isinstance(y, Adt) and x.name == y.name:
        if x.variant is not None and y.variant is not None and x.variant != y.variant:
            return 0
        if x.base is None and y.base is None and x.variant == y.variant and set(x.fields) == set(y.fields):
            rs = [eqv(I, st, x.fields[i], y.fields[i]) for i in sorted(x.fields, key=str)]
            if any(r == 0 for r in rs if isinstance(r, int)):
                return 0
            rs = [r for r in rs if not isinstance(r, int)]
            if not rs:
                return 1
            if len(rs) == 1:
                return rs[0]
    if isinstance(x, Str) and isinstance(y, Sym):
        return Term("Eq", (y, x))
    if isinstance(y, Str) and isinstance(x, Sym):
        return Term("Eq", (x, y))
    return Term("Eq", (x, y))


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(I, st, a, k):
    # Vec/String/Box deref: keep pointing at the same abstract object
    return a[0]


@model("alloc::boxed::Box::new")
def _(I, st, a, k):
    st.n += 1
    o = ("heap", st.n)
    st.mem[o] = a[0]
    return Adt("alloc::boxed::Box", None, {0: Ref(o)})


@model("alloc::boxed::Box::new_uninit")
def _(I, st, a, k):
    st.n += 1
    o = ("heap", st.n)
    st.mem[o] = Adt("?", None, {}, Sym(("uninit", st.n)))
    return Adt("alloc::boxed::Box", None, {0: Ref(o)})


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(I, st, a, k):
    v = a[0]
    if isinstance(v, Adt) and isinstance(v.fields.get(0), Ref):
        x = I.read(st, (v.fields[0].obj, v.fields[0].path))
        # MaybeUninit{value: ManuallyDrop{value: MaybeDangling{..}}}
        n = 0
        while isinstance(x, Adt) and x.name != "[]" and n < 6:
            nx = [y for y in x.fields.values()]
            if len(nx) != 1:
                break
            x = nx[0]
            n += 1
        return Adt("vec", None, {0: x})
    return NotImplemented


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def _(I, st, a, k):
    return Adt("vec", None, {0: Adt("[]", None, {})})


def vec_arr(v):
    return v.fields[0] if isinstance(v, Adt) and v.name == "vec" and isinstance(v.fields.get(0), Adt) and v.fields[0].name == "[]" and v.fields[0].base is None else None


@model("alloc::vec::Vec::push")
def _(I, st, a, k):
    if not isinstance(a[0], (Ref, Sym)):
        return NotImplemented
    o, p = I.deref(st, a[0])
    v = I.read(st, (o, p))
    st.emit("push", (o, p), a[1])
    arr = vec_arr(v)
    if arr is not None:
        f = dict(arr.fields)
        f[len(f)] = a[1]
        I.write(st, (o, p), Adt("vec", None, {0: Adt("[]", None, f)}))
    else:
        I.write(st, (o, p), Term("pushed", (v, a[1])))
    return UNIT


@model("alloc::vec::Vec::pop")
def _(I, st, a, k):
    if not isinstance(a[0], (Ref, Sym)):
        return NotImplemented
    o, p = I.deref(st, a[0])
    v = I.read(st, (o, p))
    st.emit("pop", (o, p))
    arr = vec_arr(v)
    if arr is not None:
        if not arr.fields:
            return NONE
        f = dict(arr.fields)
        x = f.pop(len(f) - 1)
        I.write(st, (o, p), Adt("vec", None, {0: Adt("[]", None, f)}))
        return some(x)
    if isinstance(v, Term) and v.op == "pushed":
        I.write(st, (o, p), v.args[0])
        return some(v.args[1])
    I.write(st, (o, p), Term("popped", (v,)))
    return Sym(("last", v.id if isinstance(v, Sym) else v))


@model("core::slice::last", "core::slice::last_mut", "core::slice::first", "core::slice::first_mut")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NotImplemented
    o, p = I.deref(st, a[0])
    v = I.read(st, (o, p))
    arr = vec_arr(v)
    if arr is None and isinstance(v, Adt) and v.name == "[]" and v.base is None:
        arr, pre = v, p
    elif arr is not None:
        pre = p + (("f", 0),)
    nm = (k or {}).get("fn", "")
    if arr is None:
        return MODELS["core::slice::get"](I, st, [a[0], 0], k) if nm.endswith("::first") else NotImplemented
    if not arr.fields:
        return NONE
    i = 0 if "first" in nm else len(arr.fields) - 1
    return some(Ref(o, pre + (("f", i),)))


def has_sub(v):
    return isinstance(v, Ref) and any(x[0] == "s" for x in v.path)


@model("alloc::vec::Vec::len", "core::slice::len", "core::str::len", "alloc::string::String::len")
def _(I, st, a, k):
    if has_sub(a[0]):
        return I.length(st, a[0])
    v = deref2(I, st, a[0])
    arr = vec_arr(v)
    if arr is not None:
        return len(arr.fields)
    if isinstance(v, Adt) and v.name == "[]" and v.base is None:
        return len(v.fields)
    if isinstance(v, Str):
        return len(v.s.encode())
    if isinstance(v, Term) and v.op == "pushed":
        return Term("Add", (Sym(("len", v.args[0].id if isinstance(v.args[0], Sym) else v.args[0])), 1))
    s = Sym(("len", v.id if isinstance(v, Sym) else v))
    if s not in st.cons:
        st.cons[s] = ((0, (1 << 63) - 1),)
    return s


@model("alloc::vec::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty")
def _(I, st, a, k):
    n = MODELS["alloc::vec::Vec::len"](I, st, a, k)
    return I.cmp(st, "Eq", n, 0)


@model("core::mem::replace")
def _(I, st, a, k):
    o, p = I.deref(st, a[0])
    old = I.read(st, (o, p))
    I.write(st, (o, p), a[1])
    return old


@model("core::num::nonzero::NonZero::get")
def _(I, st, a, k):
    return a[0]  # NonZero<T> is represented by its integer


@model("core::num::nonzero::NonZero::new")
def _(I, st, a, k):
    from interp import r_minus, INF
    v = a[0]
    if isinstance(v, int):
        return some(v) if v else NONE
    r = []
    s1 = st.fork()
    if I.constrain(s1, v, ((0, 0),)):
        r.append((s1, NONE))
    s2 = st.fork()
    if I.constrain(s2, v, r_minus(((-INF, INF),), ((0, 0),))):
        r.append((s2, some(v)))
    return outs(r)


@model("core::num::nonzero::NonZero::checked_add")
def _(I, st, a, k):
    # overflow of a 32-bit counter (input over 4 GiB) is out of scope: assumed not to happen
    return some(I.binop(st, "Add", a[0], a[1]))


@model("core::num::nonzero::NonZero::saturating_add")
def _(I, st, a, k):
    return I.binop(st, "Add", a[0], a[1])


@model("core::ptr::drop_in_place", "core::mem::drop", "core::mem::forget")
def _(I, st, a, k):
    return UNIT


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _(I, st, a, k):
    x, y = deref2(I, st, a[0]), deref2(I, st, a[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[k["fn"].rsplit("::", 1)[1]]
    if isinstance(x, (int, Sym, Term)) and isinstance(y, (int, Sym, Term)):
        ga = I.F.types[k["ga"][0]] if k.get("ga") else {"k": "?"}
        while ga["k"] == "ref":
            ga = I.F.types[ga["t"]]
        if ga["k"] in ("int", "uint", "char", "bool") or ga.get("adt") == "core::num::nonzero::NonZero":
            return I.cmp(st, op, x, y)
    if isinstance(x, Adt) and isinstance(y, Adt) and x.name == y.name == "()":
        r = MODELS["core::cmp::PartialOrd::partial_cmp"](I, st, a, k)
        if isinstance(r, tuple) and r[0] == "outs":
            sel = {"Lt": ("Less",), "Le": ("Less", "Equal"), "Gt": ("Greater",), "Ge": ("Greater", "Equal")}[op]
            return outs([(s, int(v.fields[0].variant in sel)) for s, v in r[1]])
    if isinstance(x, Adt) and isinstance(y, Adt) and k.get("ga"):
        t = I.F.types[k["ga"][0]]
        while t["k"] == "ref":
            t = I.F.types[t["t"]]
        fs = [p for im in I.F.impls if im["trait"] == "core::cmp::PartialOrd" and I.F.types[im["self"]].get("adt") == t.get("adt", 0)
              for n, p in im["items"] if n == "partial_cmp" and p in I.F.fns]
        if len(fs) == 1:
            # the type's own ordering
            sel = {"Lt": ("Less",), "Le": ("Less", "Equal"), "Gt": ("Greater",), "Ge": ("Greater", "Equal")}[op]

            def test(s, v):
                if isinstance(v, Adt) and v.variant == "None":
                    return 0
                o = v.fields.get(0) if isinstance(v, Adt) and v.variant == "Some" else None
                return int(o.variant in sel) if isinstance(o, Adt) and o.variant else Term(op, (x, y))
            st.n += 2
            r1, r2 = ("heap", st.n - 1), ("heap", st.n)
            st.mem[r1], st.mem[r2] = x, y
            return outs([(st, callv(Fn(fs[0], None, {"fn": fs[0]}), [Ref(r1), Ref(r2)], wrap=test))])
    while isinstance(x, Adt) and isinstance(y, Adt) and x.name == y.name and x.variant == y.variant and len(x.fields) == len(y.fields) == 1 and x.base is None and y.base is None:
        # single-field wrappers (source locations): ordered as their field
        x, y = x.fields.get(0), y.fields.get(0)
        if isinstance(x, (int, Sym, Term)) and isinstance(y, (int, Sym, Term)):
            return I.cmp(st, op, x, y)
    return Term(op, (x, y))


@model("core::num::from_be_bytes", "core::num::from_le_bytes")
def _(I, st, a, k):
    v = a[0]
    if isinstance(v, Adt) and v.name == "[]" and v.base is None:
        n = len(v.fields)
        be = "from_be" in (k.get("res") or k.get("fn") or "")
        t = 0
        terms = []
        for i in range(n):
            sh = 8 * (n - 1 - i) if be else 8 * i
            x = v.fields[i]
            if isinstance(x, int):
                t |= x << sh
            else:
                terms.append((x, sh))
        r = t
        for x, sh in terms:
            y = Term("Shl", (x, sh)) if sh else x
            r = y if r == 0 else Term("BitOr", (r, y))
        return r
    return NotImplemented


SCALAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))


@model("core::char::methods::from_u32", "core::char::convert::from_u32", "core::char::from_u32")
def _(I, st, a, k):
    from interp import r_minus
    v = a[0]
    r = []
    s1 = st.fork()
    if I.constrain(s1, v, SCALAR):
        r.append((s1, some(v)))
    s2 = st.fork()
    if I.constrain(s2, v, r_minus(((0, (1 << 32) - 1),), SCALAR)):
        r.append((s2, NONE))
    return outs(r)


@model("core::slice::split_at")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NotImplemented
    return Adt("()", None, {0: Sym(("prefix", a[0], a[1])), 1: Ref(a[0].obj, a[0].path + (("s", a[1]),))})


@model("core::slice::index::index", "core::ops::index::Index::index", "core::array::index")
def _(I, st, a, k):
    r = a[1]
    if isinstance(a[0], Ref) and isinstance(r, Adt) and r.name.startswith("core::ops::range::") and vec_arr(deref2(I, st, a[0])) is not None:
        o, p = a[0].obj, a[0].path
        while isinstance(I.read(st, (o, p)), Ref):
            w = I.read(st, (o, p))
            o, p = w.obj, w.path
        a = [Ref(o, p + (("f", 0),))] + list(a[1:])
    if isinstance(a[0], Ref) and isinstance(r, Adt) and r.name.endswith("RangeFrom"):
        return Ref(a[0].obj, a[0].path + (("s", r.fields[0]),))
    if isinstance(a[0], Ref) and isinstance(r, Adt) and r.name.endswith("ops::range::Range") and len(r.fields) == 2:
        return Ref(a[0].obj, a[0].path + (("s", r.fields[0]), ("n", I.binop(st, "Sub", r.fields[1], r.fields[0]))))
    if isinstance(a[0], Ref) and isinstance(r, Adt) and r.name.endswith("ops::range::RangeTo"):
        return Ref(a[0].obj, a[0].path + (("s", 0), ("n", r.fields[0])))
    if isinstance(a[0], Ref) and isinstance(r, (int, Sym, Term)):
        v = deref2(I, st, a[0])
        arr = vec_arr(v)
        if arr is not None and isinstance(r, int):
            return Ref(a[0].obj, a[0].path + (("f", 0), ("i", r))) if r in arr.fields else NotImplemented
    return NotImplemented


@model("core::slice::as_ptr")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NotImplemented
    p = tuple(x for x in a[0].path if x[0] not in ("s", "n"))
    off = 0
    for x in a[0].path:
        if x[0] == "s":
            off = I.binop(st, "Add", off, x[1])
    base = Sym(("addr", a[0].obj, p))
    return I.binop(st, "Add", off, base) if off != 0 else base


@model("core::slice::get")
def _(I, st, a, k):
    if not isinstance(a[0], Ref) or not isinstance(a[1], (int, Sym, Term)):
        return NotImplemented
    if isinstance(a[1], int):
        o, p = I.deref(st, a[0])
        arr = vec_arr(I.read(st, (o, p)))
        if arr is not None:
            return some(Ref(o, p + (("f", 0), ("f", a[1])))) if a[1] < len(arr.fields) else NONE
    n = I.length(st, a[0])
    c = I.cmp(st, "Lt", a[1], n)
    r = []
    for val in (1, 0):
        s = st.fork()
        if isinstance(c, int):
            if c != val:
                continue
        elif not I.constrain(s, c, ((val, val),)):
            continue
        r.append((s, some(Ref(a[0].obj, a[0].path + (("i", a[1]),))) if val else NONE))
    return outs(r)




def const_arr(I, st, r):
    v = deref2(I, st, r)
    if isinstance(v, Adt) and v.name == "[]" and v.base is None and all(plain(x) for x in v.fields.values()):
        return [v.fields[i] for i in range(len(v.fields))]
    return None


def searchable(arr):
    """the entries of a table that the standard library's binary search actually finds"""
    def key(e):
        if isinstance(e, int):
            return e
        if isinstance(e, Str):
            return e.s.encode()
        if isinstance(e, Adt) and e.name.endswith("CodePoint"):
            # special values order below characters
            return (1, e.fields[0]) if e.variant == "Char" and isinstance(e.fields.get(0), int) else (0, e.variant)
        return None
    ks = [key(e) for e in arr]
    if any(k is None for k in ks) or len({type(k) for k in ks}) > 1:
        return None
    if sum(1 for k in ks if isinstance(k, tuple) and k[0] == 0) > 1:
        return None
    if all(ks[i] < ks[i + 1] for i in range(len(ks) - 1)):
        return arr

    def find(k):
        size, base = len(ks), 0
        while size > 1:
            half = size // 2
            if not ks[base + half] > k:
                base += half
            size -= half
        return ks[base] == k
    return [e for e, k in zip(arr, ks) if find(k)]


@model("core::slice::binary_search", "core::slice::contains")
def _(I, st, a, k):
    """membership in a constant table (the table's sortedness is a separate obligation)"""
    from interp import r_norm, r_minus, INF
    arr = const_arr(I, st, a[0])
    x = deref2(I, st, a[1])
    isb = (k.get("fn") or "").endswith("binary_search")
    if arr is None and not isb and plain(x):
        va = vec_arr(deref2(I, st, a[0]))
        if va is not None and va.base is None and all(plain(y) for y in va.fields.values()):
            return int(x in list(va.fields.values()))

    def wrap(s, hit):
        if not isb:
            return int(hit)
        s.n += 1
        idx = Sym(("idx", s.n))
        return Adt(RES, "Ok" if hit else "Err", {0: idx})
    if arr is None:
        if not isb:
            v = deref2(I, st, a[0])
            return Term("contains", (v, x))
        return NotImplemented
    if isb:
        arr = searchable(arr)
        if arr is None:
            return NotImplemented
    if plain(x):
        return wrap(st, x in arr)

    def by_value(v, vals):
        rs = r_norm([(e, e) for e in vals])
        r = []
        s1 = st.fork()
        if rs and I.constrain(s1, v, rs):
            r.append((s1, wrap(s1, True)))
        s2 = st.fork()
        if I.constrain(s2, v, r_minus(((-INF, INF),), rs)):
            r.append((s2, wrap(s2, False)))
        return outs(r)
    if isinstance(x, (Sym, Term)) and all(isinstance(e, int) for e in arr):
        return by_value(x, arr)
    if isinstance(x, Adt) and x.variant is not None and len(x.fields) == 1 and isinstance(x.fields.get(0), (Sym, Term)) \
            and all(isinstance(e, Adt) for e in arr):
        vals = [e.fields[0] for e in arr if e.variant == x.variant and e.fields]
        if all(isinstance(e, int) for e in vals):
            return by_value(x.fields[0], vals)
    if not isb:
        return Term("contains", (deref2(I, st, a[0]), x))
    return NotImplemented


def call_now(I, st, fval, args, selfarg=None):
    """call a function value immediately: [(state, result)], [other outcomes]"""
    st.n += 1
    tmp = ("now", st.n)
    w, o = [], []
    I.call_value(st, st.frames[-1], fval, list(args), (tmp, ()), -1, w, o, {}, selfarg=selfarg)
    return [(s, s.mem.pop(tmp, None)) for s in w], o


ORD = "core::cmp::Ordering"


def pycmp(x, y):
    if isinstance(x, Str) and isinstance(y, Str):
        x, y = x.s.encode(), y.s.encode()
    elif not (isinstance(x, int) and isinstance(y, int)):
        return None
    return Adt(ORD, "Less" if x < y else "Greater" if x > y else "Equal", {})


@model("core::cmp::Ord::cmp", "core::cmp::impls::cmp", "core::str::traits::cmp")
def _(I, st, a, k):
    x, y = deref2(I, st, a[0]), deref2(I, st, a[1])
    r = pycmp(x, y)
    return NotImplemented if r is None else r


@model("core::slice::binary_search_by", "core::slice::binary_search_by_key")
def _(I, st, a, k):
    """the standard library's search loop, with the comparison decided by interpreting the closure"""
    base_ref = a[0]
    v = deref2(I, st, base_ref)
    while isinstance(base_ref, Ref) and isinstance(I.read(st, (base_ref.obj, base_ref.path)), Ref):
        base_ref = I.read(st, (base_ref.obj, base_ref.path))
    if not (isinstance(v, Adt) and v.name == "[]" and v.base is None) or not isinstance(base_ref, Ref):
        return NotImplemented
    bykey = (k.get("fn") or "").endswith("by_key")
    clo = a[2] if bykey else a[1]
    key = deref2(I, st, a[1]) if bykey else None

    def probe(i):
        nonlocal st
        rs, o = call_now(I, st, clo, [Ref(base_ref.obj, base_ref.path + (("i", i),))])
        if o or len(rs) != 1:
            return None
        st, r = rs[0]
        if bykey:
            c = pycmp(r, key)
            if c is None and isinstance(r, Adt) and isinstance(key, Adt) and r.name == key.name:
                # the crate's own ordering of the key type
                fs = [p for im in I.F.impls if im["trait"] == "core::cmp::Ord" and I.F.types[im["self"]].get("adt") == r.name
                      for n, p in im["items"] if n == "cmp" and p in I.F.fns]
                if len(fs) == 1:
                    st.n += 2
                    st.mem[("heap", st.n - 1)], st.mem[("heap", st.n)] = r, key
                    rs, o = call_now(I, st, Fn(fs[0], None, {"fn": fs[0]}), [Ref(("heap", st.n - 1)), Ref(("heap", st.n))])
                    if not o and len(rs) == 1:
                        st, c = rs[0]
            r = c
        return r.variant if isinstance(r, Adt) else None
    size, base = len(v.fields), 0
    if size == 0:
        return outs([(st, Adt(RES, "Err", {0: 0}))])
    while size > 1:
        half = size // 2
        r = probe(base + half)
        if r is None:
            return NotImplemented
        if r != "Greater":
            base += half
        size -= half
    r = probe(base)
    if r is None:
        return NotImplemented
    if r == "Equal":
        return outs([(st, Adt(RES, "Ok", {0: base}))])
    return outs([(st, Adt(RES, "Err", {0: base + (r == "Less")}))])


INTR = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "usize": (0, (1 << 64) - 1),
        "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-(1 << 31), (1 << 31) - 1), "i64": (-(1 << 63), (1 << 63) - 1),
        "isize": (-(1 << 63), (1 << 63) - 1)}


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into", "core::convert::num::try_from", "core::convert::num::ptr_try_from_impls::try_from")
def _(I, st, a, k):
    """checked integer conversion: keeps the value"""
    from interp import r_int, r_minus, INF
    ga = k.get("ga") or []
    if len(ga) < 2:
        return NotImplemented
    into = (k.get("fn") or "").endswith("try_into")
    tgt = I.F.types[ga[1] if into else ga[0]]
    src = I.F.types[ga[0] if into else ga[1]]
    if tgt.get("s") not in INTR or src.get("s") not in INTR and src.get("s") != "char":
        return NotImplemented
    x = a[0]
    lo, hi = INTR[tgt["s"]]
    if isinstance(x, int):
        return ok(x) if lo <= x <= hi else err(Sym("TryFromIntError"))
    if not isinstance(x, (Sym, Term)):
        return NotImplemented
    if src.get("s") in INTR and I.rng(st, x) is None:
        return NotImplemented
    r = []
    s1 = st.fork()
    if I.constrain(s1, x, ((lo, hi),)):
        r.append((s1, ok(x)))
    s2 = st.fork()
    slo, shi = INTR.get(src.get("s"), (0, 0x10FFFF))
    if (slo < lo or shi > hi) and I.constrain(s2, x, r_minus(((slo, shi),), ((lo, hi),))):
        r.append((s2, err(Sym("TryFromIntError"))))
    return outs(r)


@model("core::num::is_negative")
def _(I, st, a, k):
    return I.cmp(st, "Lt", a[0], 0)


@model("core::num::is_positive")
def _(I, st, a, k):
    return I.cmp(st, "Gt", a[0], 0)


def items_of(I, st, v):
    """items of a concrete vector / slice / iterator: references for a reference, values for a value; None if not concrete"""
    if isinstance(v, Ref):
        o, p = I.deref(st, v)
        w = I.read(st, (o, p))
        arr = vec_arr(w)
        if arr is not None:
            return [Ref(o, p + (("f", 0), ("f", i))) for i in range(len(arr.fields))]
        if isinstance(w, Adt) and w.name == "[]" and w.base is None:
            return [Ref(o, p + (("f", i),)) for i in range(len(w.fields))]
        return None
    if isinstance(v, Adt):
        if v.name == "$iter":
            return list(v.fields[0])
        arr = vec_arr(v)
        if arr is None and v.name == "[]" and v.base is None:
            arr = v
        if arr is not None:
            return [arr.fields[i] for i in range(len(arr.fields))]
    return None


def it(items):
    return Adt("$iter", None, {0: tuple(items)})


@model("core::slice::iter", "core::slice::iter_mut")
def _(I, st, a, k):
    l = items_of(I, st, a[0])
    return NotImplemented if l is None else it(l)


@model("core::iter::traits::iterator::Iterator::rev")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    return NotImplemented if l is None else it(reversed(l))


@model("core::iter::traits::iterator::Iterator::enumerate")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    return NotImplemented if l is None else it(Adt("()", None, {0: i, 1: x}) for i, x in enumerate(l))


@model("core::iter::traits::collect::IntoIterator::into_iter", "core::iter::traits::iterator::Iterator::by_ref")
def _(I, st, a, k):
    v = a[0]
    if isinstance(v, Adt) and v.name == "core::ops::range::RangeInclusive" and range_items(v) is not None and k.get("fn", "").endswith("into_iter"):
        return it(range_items(v))
    if isinstance(v, Adt) and v.name.split("::")[-1] in ("Range", "RangeInclusive") and v.name.startswith("core::ops"):
        return v
    if is_it(v):
        return v
    if k.get("fn", "").endswith("into_iter"):
        l = items_of(I, st, v)
        if l is not None:
            return it(l)
    return NotImplemented


@model("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _(I, st, a, k):
    r = a[0]
    if not isinstance(r, Ref):
        return NotImplemented
    v = deref(I, st, r)
    if isinstance(v, Adt) and v.name == "core::ops::range::Range" and isinstance(v.fields.get(0), int) and isinstance(v.fields.get(1), int) and not k.get("fn", "").endswith("back"):
        if v.fields[0] >= v.fields[1]:
            return NONE
        I.write(st, (r.obj, r.path), Adt(v.name, v.variant, {0: v.fields[0] + 1, 1: v.fields[1]}))
        return some(v.fields[0])
    if isinstance(v, Adt) and v.name == "$iter":
        l = v.fields[0]
        if not l:
            return NONE
        if k.get("fn", "").endswith("next_back"):
            x, l = l[-1], l[:-1]
        else:
            x, l = l[0], l[1:]
        I.write(st, (r.obj, r.path), it(l))
        return some(x)
    return NotImplemented


def fold(I, st, f, items, step):
    """call f on every item in turn; step(acc, item, result) -> (acc, stop); returns [(state, acc or ("panic",))]"""
    st.n += 1
    slot = ("fold", st.n)
    st.mem[slot] = f
    ref = f if isinstance(f, Ref) else Ref(slot)
    cur = [(st, (), False)]
    done = []
    for x in items:
        nxt = []
        for s, acc, _ in cur:
            rs, others = call_now(I, s, ref, [x], selfarg=ref)
            for o in others:
                done.append((o.state, ("panic",)))
            for s2, r in rs:
                for s3, a2, stop in step(s2, acc, x, r):
                    (done.append((s3, a2)) if stop else nxt.append((s3, a2, False)))
        cur = nxt
    return done, cur


def truth(I, st, r):
    """split on a boolean result"""
    if isinstance(r, int):
        return [(st, r)]
    out = []
    for b in (0, 1):
        s2 = st.fork()
        if I.constrain(s2, r, ((b, b),)):
            out.append((s2, b))
    return out


def is_it(v):
    return isinstance(v, Adt) and v.name == "$iter"


def it_of(I, st, v):
    """iterator items of a by-value iterator or a mutable reference to one"""
    if isinstance(v, Ref):
        w = I.read(st, (v.obj, v.path))
        if is_it(w):
            return list(w.fields[0])
        return None
    return list(v.fields[0]) if is_it(v) else range_items(v)


def range_items(v):
    if isinstance(v, Adt) and v.base is None and v.name in ("core::ops::range::Range", "core::ops::range::RangeInclusive") \
            and isinstance(v.fields.get(0), int) and isinstance(v.fields.get(1), int) and not v.fields.get(2):
        n = v.fields[1] - v.fields[0] + (v.name.endswith("Inclusive"))
        if n <= 4096:
            return [v.fields[0] + i for i in range(max(n, 0))]
    return None


@model("core::iter::traits::iterator::Iterator::map")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NotImplemented
    d, c = fold(I, st, a[1], l, lambda s, acc, x, r: [(s, acc + (r,), False)])
    return outs(d + [(s, it(acc)) for s, acc, _ in c])


@model("core::iter::traits::iterator::Iterator::for_each")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NotImplemented
    d, c = fold(I, st, a[1], l, lambda s, acc, x, r: [(s, (), False)])
    return outs(d + [(s, UNIT) for s, acc, _ in c])


@model("core::iter::traits::iterator::Iterator::filter")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NotImplemented
    return by_ref(I, st, a[1], l, lambda acc, x, b: (acc + ((x,) if b else ()), False), lambda acc: it(acc))


def by_ref(I, st, f, l, step, end):
    """predicate called on references to the items"""
    cur = [(st, (), False)]
    done = []
    st.n += 1
    slot = ("pred", st.n)
    st.mem[slot] = f
    for i, x in enumerate(l):
        nxt = []
        for s, acc, _ in cur:
            s.n += 1
            o = ("item", s.n)
            s.mem[o] = x
            rs, others = call_now(I, s, Ref(slot), [Ref(o)], selfarg=Ref(slot))
            done += [(q.state, ("panic",)) for q in others]
            for s2, r in rs:
                for s3, b in truth(I, s2, r):
                    a2, stop = step(acc, x, b)
                    (done.append((s3, a2)) if stop else nxt.append((s3, a2, False)))
        cur = nxt
    return outs(done + [(s, end(acc)) for s, acc, _ in cur])


@model("core::iter::traits::iterator::Iterator::find")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NotImplemented
    return by_ref(I, st, a[1], l, lambda acc, x, b: (some(x), True) if b else ((), False), lambda acc: NONE)


@model("core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::all")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NotImplemented
    hit = 1 if k.get("fn", "").endswith("any") else 0

    def step(s, acc, x, r):
        return [(s2, hit, True) if b == hit else (s2, (), False) for s2, b in truth(I, s, r)]
    d, c = fold(I, st, a[1], l, step)
    return outs(d + [(s, 1 - hit) for s, acc, _ in c])


@model("core::iter::traits::iterator::Iterator::filter_map", "core::iter::traits::iterator::Iterator::flat_map")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NotImplemented

    def step(s, acc, x, r):
        xs = items_of(I, s, r) if not isinstance(r, Ref) else None
        if xs is not None:
            return [(s, acc + tuple(xs), False)]
        return [(s2, acc + ((p,) if n == "Some" else ()), False) for s2, n, p in opt(I, s, r)]
    d, c = fold(I, st, a[1], l, step)
    return outs(d + [(s, it(acc)) for s, acc, _ in c])


@model("core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    return NotImplemented if l is None else it(deref(I, st, x) for x in l)


@model("core::iter::traits::iterator::Iterator::chain")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    m = items_of(I, st, a[1])
    return NotImplemented if l is None or m is None else it(l + m)


@model("core::iter::traits::iterator::Iterator::skip", "core::iter::traits::iterator::Iterator::take")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None or not isinstance(a[1], int):
        return NotImplemented
    return it(l[a[1]:] if k.get("fn", "").endswith("skip") else l[:a[1]])


@model("core::iter::traits::iterator::Iterator::count")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    return NotImplemented if l is None else len(l)


@model("core::iter::traits::iterator::Iterator::collect")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NotImplemented
    ga = [I.F.types[g] for g in k.get("ga", [])]
    t = ga[-1]["s"] if ga else ""
    if "Vec<" in t and not t.startswith(("core::option", "core::result", "std::")) or not t or t.startswith("alloc::vec::Vec"):
        return Adt("vec", None, {0: Adt("[]", None, dict(enumerate(l)))})
    return NotImplemented


def cvec(items):
    return Adt("vec", None, {0: Adt("[]", None, dict(enumerate(items)))})


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend", "alloc::vec::Vec::append", "alloc::vec::Vec::extend_from_slice")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NotImplemented
    o, p = I.deref(st, a[0])
    cur = items_of(I, st, I.read(st, (o, p)))
    nm = k.get("fn", "")
    if cur is None:
        return NotImplemented
    new = items_of(I, st, a[1])
    if new is None:
        return NotImplemented
    if nm.endswith("append"):
        new = [deref(I, st, x) for x in new]
        o2, p2 = I.deref(st, a[1])
        I.write(st, (o2, p2), cvec([]))
    elif nm.endswith("extend_from_slice"):
        new = [deref(I, st, x) for x in new]
    elif isinstance(a[1], Ref):
        new = [deref(I, st, x) for x in new]
    I.write(st, (o, p), cvec(cur + new))
    return UNIT


def rng_of(v, n):
    """python (lo, hi) of a concrete range value"""
    if not isinstance(v, Adt):
        return None
    nm = v.name.split("::")[-1]
    f = v.fields
    if nm == "RangeFull":
        return 0, n
    if not all(isinstance(x, int) for x in f.values()):
        return None
    if nm == "Range":
        return f[0], f[1]
    if nm == "RangeFrom":
        return f[0], n
    if nm == "RangeTo":
        return 0, f[0]
    return None


@model("alloc::vec::Vec::drain")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NotImplemented
    o, p = I.deref(st, a[0])
    cur = items_of(I, st, I.read(st, (o, p)))
    if cur is None:
        return NotImplemented
    r = rng_of(a[1], len(cur))
    if r is None:
        return NotImplemented
    if r[0] > len(cur) or r[1] > len(cur) or r[0] > r[1]:
        return outs([(st, ("panic",))])
    I.write(st, (o, p), cvec(cur[:r[0]] + cur[r[1]:]))
    return it(cur[r[0]:r[1]])


@model("alloc::vec::Vec::split_off")
def _(I, st, a, k):
    if not isinstance(a[0], Ref) or not isinstance(a[1], int):
        return NotImplemented
    o, p = I.deref(st, a[0])
    cur = items_of(I, st, I.read(st, (o, p)))
    if cur is None:
        return NotImplemented
    if a[1] > len(cur):
        return outs([(st, ("panic",))])
    I.write(st, (o, p), cvec(cur[:a[1]]))
    return cvec(cur[a[1]:])


@model("alloc::slice::to_vec", "alloc::borrow::ToOwned::to_owned")
def _(I, st, a, k):
    l = items_of(I, st, a[0])
    return NotImplemented if l is None else cvec([deref(I, st, x) for x in l])


@model("alloc::slice::into_vec")
def _(I, st, a, k):
    l = items_of(I, st, a[0])
    return NotImplemented if l is None or isinstance(a[0], Ref) else cvec(l)


def _charclass(*names, rs=None, nonascii=False):
    """membership of a character in a fixed set of ASCII ranges; nonascii: undecided above 0x7f"""
    @model(*names)
    def f(I, st, a, k):
        v = a[0]
        if isinstance(v, (Ref,)):
            v = deref2(I, st, v)
        if isinstance(v, int):
            if v > 0x7f and nonascii:
                return NotImplemented
            return int(any(l <= v <= h for l, h in rs))
        if not isinstance(v, (Sym, Term)):
            return NotImplemented
        r = []
        s1 = st.fork()
        if I.constrain(s1, v, rs):
            r.append((s1, 1))
        top = 0x7f if nonascii else INF_
        s2 = st.fork()
        if I.constrain(s2, v, r_minus(((-INF_, top),), rs)):
            r.append((s2, 0))
        if nonascii:
            s3 = st.fork()
            if I.constrain(s3, v, ((0x80, INF_),)):
                b = Sym(("unicode", names[0].split("::")[-1], v))
                s3.cons.setdefault(b, ((0, 1),))
                r.append((s3, b))
        return outs(r)


INF_ = 1 << 130
_D, _U, _L = (48, 57), (65, 90), (97, 122)
for _ty in ("core::char::methods::", "core::num::"):
    _charclass(_ty + "is_ascii_digit", rs=(_D,))
    _charclass(_ty + "is_ascii_uppercase", rs=(_U,))
    _charclass(_ty + "is_ascii_lowercase", rs=(_L,))
    _charclass(_ty + "is_ascii_alphabetic", rs=(_U, _L))
    _charclass(_ty + "is_ascii_alphanumeric", rs=(_D, _U, _L))
    _charclass(_ty + "is_ascii_hexdigit", rs=(_D, (65, 70), (97, 102)))
    _charclass(_ty + "is_ascii_punctuation", rs=((33, 47), (58, 64), (91, 96), (123, 126)))
    _charclass(_ty + "is_ascii_whitespace", rs=((9, 10), (12, 13), (32, 32)))
    _charclass(_ty + "is_ascii_control", rs=((0, 31), (127, 127)))
    _charclass(_ty + "is_ascii", rs=((0, 127),))
_charclass("core::char::methods::is_alphanumeric", rs=(_D, _U, _L), nonascii=True)
_charclass("core::char::methods::is_alphabetic", rs=(_U, _L), nonascii=True)
_charclass("core::char::methods::is_uppercase", rs=(_U,), nonascii=True)
_charclass("core::char::methods::is_lowercase", rs=(_L,), nonascii=True)
_charclass("core::char::methods::is_numeric", rs=(_D,), nonascii=True)
_charclass("core::char::methods::is_whitespace", rs=((9, 13), (32, 32)), nonascii=True)
_charclass("core::char::methods::is_control", rs=((0, 31), (127, 127)), nonascii=True)


@model("core::char::methods::is_digit")
def _(I, st, a, k):
    if not isinstance(a[1], int):
        return NotImplemented
    n = a[1]
    rs = [(48, 47 + min(n, 10))]
    if n > 10:
        rs += [(65, 54 + n), (97, 86 + n)]
    rs = tuple(rs)
    if isinstance(a[0], int):
        return int(any(l <= a[0] <= h for l, h in rs))
    r = []
    s1 = st.fork()
    if I.constrain(s1, a[0], rs):
        r.append((s1, 1))
    s2 = st.fork()
    if I.constrain(s2, a[0], r_minus(((-INF_, INF_),), rs)):
        r.append((s2, 0))
    return outs(r)


import models2  # noqa: E402,F401
