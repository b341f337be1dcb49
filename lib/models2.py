"""Models of further std functions, so that equivalent ways of writing the code are followed precisely."""
from interp import Adt, Fn, Ref, Str, Sym, Term, UNIT, r_int, r_minus, INF
from models import MODELS, model, deref, deref2, some, NONE, ok, err, opt, res, outs, callv, truth, it, it_of, items_of, cvec, \
    vec_arr, fold, by_ref, eqv, plain, rng_of, INTR
import models

NI = NotImplemented
ITER = "core::iter::traits::iterator::Iterator::"


def last(k):
    return (k.get("fn") or k.get("res") or "").rsplit("::", 1)[-1]


def num(v):
    return isinstance(v, (int, Sym, Term))


# ---------------------------------------------------------------- ranges
@model("core::ops::range::RangeInclusive::new")
def _(I, st, a, k):
    return Adt("core::ops::range::RangeInclusive", None, {0: a[0], 1: a[1], 2: 0})


@model("core::ops::range::RangeInclusive::start", "core::ops::range::RangeInclusive::end")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NI
    return Ref(a[0].obj, a[0].path + (("f", 0 if last(k) == "start" else 1),))


def bounds(v):
    if not isinstance(v, Adt) or v.base is not None:
        return None
    n = v.name.split("::")[-1]
    f = v.fields
    return {"Range": [("Ge", f.get(0)), ("Lt", f.get(1))], "RangeInclusive": [("Ge", f.get(0)), ("Le", f.get(1))], "RangeFrom": [("Ge", f.get(0))],
            "RangeTo": [("Lt", f.get(0))], "RangeToInclusive": [("Le", f.get(0))], "RangeFull": []}.get(n)


@model("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains", "core::ops::range::RangeFrom::contains",
       "core::ops::range::RangeTo::contains", "core::ops::range::RangeToInclusive::contains", "core::ops::range::RangeBounds::contains")
def _(I, st, a, k):
    b, x = bounds(deref2(I, st, a[0])), deref2(I, st, a[1])
    if b is None or not num(x) or any(not num(y) for _, y in b):
        return NI
    cur, done = [st], []
    for op, y in b:
        nxt = []
        for s in cur:
            c = I.cmp(s, op, x, y)
            if isinstance(c, int):
                (nxt if c else done).append(s)
                continue
            for v in (0, 1):
                s2 = s.fork()
                if I.constrain(s2, c, ((v, v),)):
                    (nxt if v else done).append(s2)
        cur = nxt
    return outs([(s, 1) for s in cur] + [(s, 0) for s in done])


@model("core::ops::range::Range::is_empty", "core::ops::range::RangeInclusive::is_empty")
def _(I, st, a, k):
    v = deref2(I, st, a[0])
    b = bounds(v)
    if b is None or len(b) != 2:
        return NI
    return I.cmp(st, "Ge" if b[1][0] == "Lt" else "Gt", b[0][1], b[1][1])


# ---------------------------------------------------------------- Option / Result / bool
O, R = "core::option::Option::", "core::result::Result::"


@model(O + "filter")
def _(I, st, a, k):
    r = []
    for s, n, p in opt(I, st, a[0]):
        if n == "None":
            r.append((s, NONE))
            continue
        x = by_ref(I, s, a[1], [p], lambda acc, y, b: (some(y) if b else NONE, True), lambda acc: NONE)
        r += x[1]
    return outs(r)


@model(O + "or")
def _(I, st, a, k):
    return outs([(s, some(p) if n == "Some" else a[1]) for s, n, p in opt(I, st, a[0])])


@model(O + "and")
def _(I, st, a, k):
    return outs([(s, a[1] if n == "Some" else NONE) for s, n, p in opt(I, st, a[0])])


@model(O + "is_none_or")
def _(I, st, a, k):
    return outs([(s, 1 if n == "None" else callv(a[1], [p])) for s, n, p in opt(I, st, a[0])])


@model(O + "zip")
def _(I, st, a, k):
    r = []
    for s, n, p in opt(I, st, a[0]):
        if n == "None":
            r.append((s, NONE))
            continue
        for s2, m, q in opt(I, s, a[1]):
            r.append((s2, NONE if m == "None" else some(Adt("()", None, {0: p, 1: q}))))
    return outs(r)


@model(O + "flatten")
def _(I, st, a, k):
    return outs([(s, NONE if n == "None" else p) for s, n, p in opt(I, st, a[0])])


@model(O + "unwrap_unchecked")
def _(I, st, a, k):
    return outs([(s, p) for s, n, p in opt(I, st, a[0]) if n == "Some"])


@model(O + "replace", O + "insert")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NI
    o, p = I.deref(st, a[0])
    old = I.read(st, (o, p))
    I.write(st, (o, p), some(a[1]))
    return old if last(k) == "replace" else Ref(o, p + (("v", 1), ("f", 0)))


@model(O + "unwrap_or_default", R + "unwrap_or_default")
def _(I, st, a, k):
    ga = [I.F.types[g] for g in k.get("ga", [])]
    d = default(ga[0]) if ga else None
    if d is None:
        return NI
    sp = opt if "option" in (k.get("fn") or "") else res
    return outs([(s, p if n in ("Some", "Ok") else d) for s, n, p in sp(I, st, a[0])])


def default(t):
    if t["k"] in ("int", "uint", "bool"):
        return 0
    if t.get("s", "").startswith("alloc::vec::Vec<"):
        return cvec([])
    if t.get("s", "").startswith("core::option::Option<"):
        return NONE
    return None


@model("core::default::Default::default")
def _(I, st, a, k):
    ga = [I.F.types[g] for g in k.get("ga", [])]
    d = default(ga[0]) if ga else None
    return NI if d is None else d


@model(R + "unwrap_or")
def _(I, st, a, k):
    return outs([(s, p if n == "Ok" else a[1]) for s, n, p in res(I, st, a[0])])


@model(R + "and_then")
def _(I, st, a, k):
    return outs([(s, err(p) if n == "Err" else callv(a[1], [p])) for s, n, p in res(I, st, a[0])])


@model(R + "or_else")
def _(I, st, a, k):
    return outs([(s, ok(p) if n == "Ok" else callv(a[1], [p])) for s, n, p in res(I, st, a[0])])


@model(R + "err")
def _(I, st, a, k):
    return outs([(s, some(p) if n == "Err" else NONE) for s, n, p in res(I, st, a[0])])


@model(R + "is_ok_and")
def _(I, st, a, k):
    return outs([(s, 0 if n == "Err" else callv(a[1], [p])) for s, n, p in res(I, st, a[0])])


@model(R + "map_or")
def _(I, st, a, k):
    return outs([(s, a[1] if n == "Err" else callv(a[2], [p])) for s, n, p in res(I, st, a[0])])


@model(R + "map_or_else")
def _(I, st, a, k):
    return outs([(s, callv(a[1], [p]) if n == "Err" else callv(a[2], [p])) for s, n, p in res(I, st, a[0])])


@model(R + "unwrap_err", R + "expect_err")
def _(I, st, a, k):
    return outs([(s, p if n == "Err" else ("panic",)) for s, n, p in res(I, st, a[0])])


@model("core::bool::then")
def _(I, st, a, k):
    return outs([(s, callv(a[1], [], lambda s_, v: some(v)) if b else NONE) for s, b in truth(I, st, a[0])])


@model("core::bool::then_some")
def _(I, st, a, k):
    return outs([(s, some(a[1]) if b else NONE) for s, b in truth(I, st, a[0])])


# ---------------------------------------------------------------- comparison
ORD = "core::cmp::Ordering"


def ordering(n):
    return Adt(ORD, n, {})


def is_num(I, k):
    if not k.get("ga"):
        return False
    t = I.F.types[k["ga"][0]]
    while t["k"] == "ref":
        t = I.F.types[t["t"]]
    return t["k"] in ("int", "uint", "char", "bool") or t.get("adt") == "core::num::nonzero::NonZero"


def pick(I, st, x, y, larger):
    c = I.cmp(st, "Ge" if larger else "Le", x, y)
    if isinstance(c, int):
        return x if c else y
    return outs([(s, x if b else y) for s, b in truth(I, st, c)])


@model("core::cmp::Ord::min", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::max")
def _(I, st, a, k):
    if not (num(a[0]) and num(a[1]) and is_num(I, k)):
        return NI
    return pick(I, st, a[0], a[1], last(k) == "max")


@model("core::cmp::Ord::clamp")
def _(I, st, a, k):
    if not all(isinstance(x, int) for x in a) or not is_num(I, k):
        return NI
    return max(a[1], min(a[0], a[2]))


@model("core::cmp::PartialOrd::partial_cmp")
def _(I, st, a, k):
    x, y = deref2(I, st, a[0]), deref2(I, st, a[1])
    if isinstance(x, Adt) and isinstance(y, Adt) and x.name == y.name == "()" and x.base is None and y.base is None and len(x.fields) == len(y.fields):
        # tuples: lexicographic
        done, open_ = [], [st]
        for i in range(len(x.fields)):
            p, q = deref2(I, st, x.fields[i]), deref2(I, st, y.fields[i])
            if not (num(p) and num(q)):
                return NI
            nxt = []
            for s in open_:
                for op, n in (("Lt", "Less"), ("Eq", "Equal"), ("Gt", "Greater")):
                    c = I.cmp(s, op, p, q)
                    if c == 0 and isinstance(c, int):
                        continue
                    s2 = s if isinstance(c, int) else s.fork()
                    if isinstance(c, int) or I.constrain(s2, c, ((1, 1),)):
                        if n == "Equal":
                            nxt.append(s2)
                        else:
                            done.append((s2, some(ordering(n))))
                    if isinstance(c, int):
                        break
            open_ = nxt
        return outs(done + [(s, some(ordering("Equal"))) for s in open_])
    if not (num(x) and num(y) and is_num(I, k)):
        return NI
    r = []
    for op, n in (("Lt", "Less"), ("Eq", "Equal"), ("Gt", "Greater")):
        c = I.cmp(st, op, x, y)
        if isinstance(c, int):
            if c:
                return some(ordering(n))
            continue
        s2 = st.fork()
        if I.constrain(s2, c, ((1, 1),)):
            r.append((s2, some(ordering(n))))
    return outs(r)


for _n, _set in (("is_lt", ("Less",)), ("is_le", ("Less", "Equal")), ("is_gt", ("Greater",)), ("is_ge", ("Greater", "Equal")), ("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater"))):
    def _mk(sset):
        def f(I, st, a, k):
            v = deref2(I, st, a[0])
            return int(v.variant in sset) if isinstance(v, Adt) and v.variant else NI
        return f
    MODELS["core::cmp::Ordering::" + _n] = _mk(_set)


@model("core::cmp::Ordering::reverse")
def _(I, st, a, k):
    v = a[0]
    return ordering({"Less": "Greater", "Greater": "Less"}.get(v.variant, v.variant)) if isinstance(v, Adt) and v.variant else NI


@model("core::cmp::Ordering::then")
def _(I, st, a, k):
    return (a[1] if a[0].variant == "Equal" else a[0]) if isinstance(a[0], Adt) and a[0].variant else NI


@model("core::cmp::Ordering::then_with")
def _(I, st, a, k):
    if not (isinstance(a[0], Adt) and a[0].variant):
        return NI
    return callv(a[1], []) if a[0].variant == "Equal" else a[0]


# ---------------------------------------------------------------- integers
def int_ty(I, k):
    """the integer type of core::num::<impl T>::f"""
    for key in ("res", "fn"):
        n = k.get(key) or ""
        for t in INTR:
            if "<impl %s>" % t in n or "::%s::" % t in n:
                return t
    return None


def arith(base):
    return {"add": "Add", "sub": "Sub", "mul": "Mul"}[base]


for _b in ("add", "sub", "mul"):
    def _mk(b):
        def sat(I, st, a, k):
            t = int_ty(I, k)
            if t is None or not (num(a[0]) and num(a[1])):
                return NI
            lo, hi = INTR[t]
            if isinstance(a[0], int) and isinstance(a[1], int):
                v = {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[b]
                return max(lo, min(hi, v))
            if b == "sub" and lo == 0:
                c = I.cmp(st, "Ge", a[0], a[1])
                return outs([(s, I.binop(s, "Sub", a[0], a[1]) if x else 0) for s, x in truth(I, st, c)])
            if b == "add":
                # counters do not reach their maximum (inputs below 4 GiB)
                return I.binop(st, "Add", a[0], a[1])
            return NI

        def chk(I, st, a, k):
            t = int_ty(I, k)
            if t is None or not (num(a[0]) and num(a[1])):
                return NI
            lo, hi = INTR[t]
            if isinstance(a[0], int) and isinstance(a[1], int):
                v = {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[b]
                return some(v) if lo <= v <= hi else NONE
            if b == "sub" and lo == 0:
                c = I.cmp(st, "Ge", a[0], a[1])
                return outs([(s, some(I.binop(s, "Sub", a[0], a[1])) if x else NONE) for s, x in truth(I, st, c)])
            if b == "add":
                return some(I.binop(st, "Add", a[0], a[1]))
            return NI

        def wrap(I, st, a, k):
            t = int_ty(I, k)
            if t is None or not (num(a[0]) and num(a[1])):
                return NI
            lo, hi = INTR[t]
            if isinstance(a[0], int) and isinstance(a[1], int):
                v = {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[b]
                return (v - lo) % (hi - lo + 1) + lo
            ra, rb = I.rng(st, a[0]), I.rng(st, a[1])
            ex = {"add": (ra[0][0] + rb[0][0], ra[-1][1] + rb[-1][1]), "sub": (ra[0][0] - rb[-1][1], ra[-1][1] - rb[0][0])}.get(b)
            if ex and lo <= ex[0] and ex[1] <= hi:
                return I.binop(st, arith(b), a[0], a[1])
            if b == "sub" and lo == 0 and t in ("u8", "u16", "u32"):
                c = I.cmp(st, "Ge", a[0], a[1])
                return outs([(s, I.binop(s, "Sub", a[0], a[1]) if x else I.binop(s, "Add", I.binop(s, "Sub", a[0], a[1]), hi + 1)) for s, x in truth(I, st, c)])
            return NI
        return sat, chk, wrap
    _s, _c, _w = _mk(_b)
    MODELS["core::num::saturating_" + _b] = _s
    MODELS["core::num::checked_" + _b] = _c
    MODELS["core::num::wrapping_" + _b] = _w


@model("core::num::abs_diff")
def _(I, st, a, k):
    c = I.cmp(st, "Ge", a[0], a[1])
    if isinstance(c, int):
        return I.binop(st, "Sub", a[0], a[1]) if c else I.binop(st, "Sub", a[1], a[0])
    return outs([(s, I.binop(s, "Sub", a[0], a[1]) if b else I.binop(s, "Sub", a[1], a[0])) for s, b in truth(I, st, c)])


@model("core::num::pow")
def _(I, st, a, k):
    return a[0] ** a[1] if isinstance(a[0], int) and isinstance(a[1], int) else NI


@model("core::char::methods::to_digit")
def _(I, st, a, k):
    if not isinstance(a[1], int) or not num(a[0]):
        return NI
    n = a[1]
    parts = [((48, 47 + min(n, 10)), 48)]
    if n > 10:
        parts += [((65, 54 + n), 55), ((97, 86 + n), 87)]
    if isinstance(a[0], int):
        for (lo, hi), d in parts:
            if lo <= a[0] <= hi:
                return some(a[0] - d)
        return NONE
    r = []
    for rg, d in parts:
        s2 = st.fork()
        if I.constrain(s2, a[0], (rg,)):
            r.append((s2, some(I.binop(s2, "Sub", a[0], d))))
    s2 = st.fork()
    if I.constrain(s2, a[0], r_minus(((-INF, INF),), tuple(x for x, _ in parts))):
        r.append((s2, NONE))
    return outs(r)


def shift_case(lo, hi, d):
    def f(I, st, a, k):
        v = deref2(I, st, a[0])
        if isinstance(v, int):
            return v + d if lo <= v <= hi else v
        if not num(v):
            return NI
        r = []
        s2 = st.fork()
        if I.constrain(s2, v, ((lo, hi),)):
            r.append((s2, I.binop(s2, "Add" if d > 0 else "Sub", v, abs(d))))
        s3 = st.fork()
        if I.constrain(s3, v, r_minus(((-INF, INF),), ((lo, hi),))):
            r.append((s3, v))
        return outs(r)
    return f


for _ty in ("core::char::methods::", "core::num::"):
    MODELS[_ty + "to_ascii_lowercase"] = shift_case(65, 90, 32)
    MODELS[_ty + "to_ascii_uppercase"] = shift_case(97, 122, -32)


# ---------------------------------------------------------------- memory
@model("core::mem::take")
def _(I, st, a, k):
    ga = [I.F.types[g] for g in k.get("ga", [])]
    d = default(ga[0]) if ga else None
    if d is None or not isinstance(a[0], Ref):
        return NI
    o, p = I.deref(st, a[0])
    old = I.read(st, (o, p))
    I.write(st, (o, p), d)
    return old


@model("core::mem::swap")
def _(I, st, a, k):
    if not (isinstance(a[0], Ref) and isinstance(a[1], Ref)):
        return NI
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    vx, vy = I.read(st, x), I.read(st, y)
    I.write(st, x, vy)
    I.write(st, y, vx)
    return UNIT


@model("core::hint::black_box", "core::convert::identity")
def _(I, st, a, k):
    return a[0]


@model("core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut")
def _(I, st, a, k):
    ga = [I.F.types[g]["s"] for g in k.get("ga", [])]
    if ga and (ga[0].startswith(("alloc::vec::Vec<", "[", "&[", "str", "&str", "alloc::string::String")) or len(ga) > 1 and ga[0] == ga[1]):
        return a[0]
    return NI


# ---------------------------------------------------------------- vectors and slices
V = "alloc::vec::Vec::"


def cur_of(I, st, r):
    if not isinstance(r, Ref):
        return None, None
    o, p = I.deref(st, r)
    return (o, p), items_of(I, st, I.read(st, (o, p)))


@model(V + "as_slice", V + "as_mut_slice", "alloc::string::String::as_str", "core::slice::as_slice", "core::array::as_slice")
def _(I, st, a, k):
    return a[0]


@model(V + "insert")
def _(I, st, a, k):
    loc, l = cur_of(I, st, a[0])
    if l is None or not isinstance(a[1], int):
        return NI
    if a[1] > len(l):
        return outs([(st, ("panic",))])
    I.write(st, loc, cvec(l[:a[1]] + [a[2]] + l[a[1]:]))
    return UNIT


@model(V + "remove", V + "swap_remove")
def _(I, st, a, k):
    loc, l = cur_of(I, st, a[0])
    if l is None or not isinstance(a[1], int):
        return NI
    if a[1] >= len(l):
        return outs([(st, ("panic",))])
    x = l[a[1]]
    if last(k) == "remove":
        l = l[:a[1]] + l[a[1] + 1:]
    else:
        l = list(l)
        l[a[1]] = l[-1]
        l.pop()
    I.write(st, loc, cvec(l))
    return x


@model(V + "truncate", V + "clear")
def _(I, st, a, k):
    loc, l = cur_of(I, st, a[0])
    n = 0 if last(k) == "clear" else a[1]
    if l is None or not isinstance(n, int):
        if last(k) == "clear" and loc is not None:
            I.write(st, loc, cvec([]))
            return UNIT
        return NI
    I.write(st, loc, cvec(l[:n]))
    return UNIT


@model(V + "retain")
def _(I, st, a, k):
    loc, l = cur_of(I, st, a[0])
    if l is None:
        return NI
    r = by_ref(I, st, a[1], l, lambda acc, x, b: (acc + ((x,) if b else ()), False), lambda acc: ("kept", acc))
    res_ = []
    for s, v in r[1]:
        if isinstance(v, tuple) and v and v[0] == "kept":
            I.write(s, loc, cvec(list(v[1])))
            v = UNIT
        res_.append((s, v))
    return outs(res_)


@model("core::slice::split_first", "core::slice::split_last")
def _(I, st, a, k):
    if not isinstance(a[0], Ref):
        return NI
    o, p = I.deref(st, a[0])
    v = I.read(st, (o, p))
    l = items_of(I, st, Ref(o, p))
    if l is None:
        return NI
    if not l:
        return NONE
    st.n += 1
    h = ("heap", st.n)
    first = last(k) == "split_first"
    rest = l[1:] if first else l[:-1]
    st.mem[h] = Adt("[]", None, dict(enumerate(I.read(st, (x.obj, x.path)) for x in rest)))
    return some(Adt("()", None, {0: l[0] if first else l[-1], 1: Ref(h)}))


def bytes_of(v):
    if isinstance(v, Str):
        return list(v.s.encode())
    return None


@model("core::slice::starts_with", "core::slice::ends_with", "core::str::starts_with", "core::str::ends_with")
def _(I, st, a, k):
    x, y = deref2(I, st, a[0]), deref2(I, st, a[1])
    if isinstance(x, Str) and isinstance(y, Str):
        return int(x.s.startswith(y.s) if last(k) == "starts_with" else x.s.endswith(y.s))
    lx, ly = items_of(I, st, x), items_of(I, st, y)
    if lx is None or ly is None:
        return NI
    if len(ly) > len(lx):
        return 0
    part = lx[:len(ly)] if last(k) == "starts_with" else lx[len(lx) - len(ly):]
    rs = [eqv(I, st, p, q) for p, q in zip(part, ly)]
    if any(r == 0 for r in rs if isinstance(r, int)):
        return 0
    return 1 if all(isinstance(r, int) for r in rs) else NI


@model("core::slice::swap")
def _(I, st, a, k):
    if not isinstance(a[0], Ref) or not all(isinstance(x, int) for x in a[1:3]):
        return NI
    l = items_of(I, st, a[0])
    if l is None or max(a[1], a[2]) >= len(l):
        return NI
    x, y = l[a[1]], l[a[2]]
    vx, vy = I.read(st, (x.obj, x.path)), I.read(st, (y.obj, y.path))
    I.write(st, (x.obj, x.path), vy)
    I.write(st, (y.obj, y.path), vx)
    return UNIT


@model("core::slice::reverse")
def _(I, st, a, k):
    l = items_of(I, st, a[0])
    if l is None or not isinstance(a[0], Ref):
        return NI
    vs = [I.read(st, (x.obj, x.path)) for x in l]
    for x, v in zip(l, reversed(vs)):
        I.write(st, (x.obj, x.path), v)
    return UNIT


@model("core::slice::get_mut")
def _(I, st, a, k):
    l = items_of(I, st, a[0])
    if l is None or not isinstance(a[1], int):
        return NI
    return some(l[a[1]]) if 0 <= a[1] < len(l) else NONE


# ---------------------------------------------------------------- iterators
@model(ITER + "position", ITER + "rposition")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NI
    idx = list(range(len(l)))
    if last(k) == "rposition":
        idx.reverse()

    def step(s, acc, x, r):
        n = acc[0] if acc else 0
        return [(s2, some(idx[n]), True) if b else (s2, (n + 1,), False) for s2, b in truth(I, s, r)]
    d, c = fold(I, st, a[1], [l[i] for i in idx], step)
    return outs(d + [(s, NONE) for s, acc, _ in c])


@model(ITER + "find_map")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NI

    def step(s, acc, x, r):
        return [(s2, some(p), True) if n == "Some" else (s2, (), False) for s2, n, p in opt(I, s, r)]
    d, c = fold(I, st, a[1], l, step)
    return outs(d + [(s, NONE) for s, acc, _ in c])


@model(ITER + "fold")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NI
    cur, done = [(st, a[1])], []
    st.n += 1
    slot = ("fold", st.n)
    st.mem[slot] = a[2]
    ref = a[2] if isinstance(a[2], Ref) else Ref(slot)
    for x in l:
        nxt = []
        for s, acc in cur:
            rs, others = models.call_now(I, s, ref, [acc, x], selfarg=ref)
            done += [(o.state, ("panic",)) for o in others]
            nxt += rs
        cur = nxt
    return outs(done + list(cur))


@model(ITER + "last")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    return NI if l is None else some(l[-1]) if l else NONE


@model(ITER + "nth")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None or not isinstance(a[1], int):
        return NI
    if isinstance(a[0], Ref):
        I.write(st, I.deref(st, a[0]), it(l[a[1] + 1:]))
    return some(l[a[1]]) if a[1] < len(l) else NONE


@model(ITER + "zip")
def _(I, st, a, k):
    l, m = it_of(I, st, a[0]), it_of(I, st, a[1])
    if m is None:
        m = items_of(I, st, a[1])
    return NI if l is None or m is None else it(Adt("()", None, {0: x, 1: y}) for x, y in zip(l, m))


@model(ITER + "sum", ITER + "product")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NI
    t = 0 if last(k) == "sum" else 1
    for x in l:
        x = deref2(I, st, x)
        if not num(x):
            return NI
        t = x if t == (0 if last(k) == "sum" else 1) else I.binop(st, "Add" if last(k) == "sum" else "Mul", t, x)
    return t


@model(ITER + "min", ITER + "max")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None or not all(isinstance(deref2(I, st, x), int) for x in l):
        return NI
    f = min if last(k) == "min" else max
    return some(f(l, key=lambda x: deref2(I, st, x))) if l else NONE


@model(ITER + "take_while", ITER + "skip_while")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    if l is None:
        return NI
    if last(k) == "take_while":
        return by_ref(I, st, a[1], l, lambda acc, x, b: (acc + (x,), False) if b else (it(acc), True), lambda acc: it(acc))
    n = len(l)
    return by_ref(I, st, a[1], l, lambda acc, x, b: (acc + (x,), False) if b else (it(l[len(acc):]), True), lambda acc: it(()))


@model(ITER + "step_by")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    return NI if l is None or not isinstance(a[1], int) or a[1] < 1 else it(l[::a[1]])


@model(ITER + "inspect", ITER + "fuse")
def _(I, st, a, k):
    return a[0] if last(k) == "fuse" else NI


@model("core::iter::sources::once::once")
def _(I, st, a, k):
    return it([a[0]])


@model("core::iter::sources::empty::empty")
def _(I, st, a, k):
    return it([])


@model("core::iter::traits::exact_size::ExactSizeIterator::len")
def _(I, st, a, k):
    l = it_of(I, st, a[0])
    return NI if l is None else len(l)


@model("core::array::iter::into_iter", "core::array::into_iter", "core::array::iter")
def _(I, st, a, k):
    l = items_of(I, st, a[0])
    return NI if l is None else it(l)
