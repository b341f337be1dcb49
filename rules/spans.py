"""P23: relations between source positions (order-type domain)."""
import itertools
from interp import *
from rules.common import make_interp
import models as M

SRC = "source::"
LOC = SRC + "Location"
LC = SRC + "LineColumn"
LCS = SRC + "LineColumnSpan"
CS = SRC + "CharacterSpan"
SPAN = SRC + "Span"
SOURCE = SRC + "Source"
KIND = SRC + "SpanKind"
STEP = 10000


def weak_orders(n):
    """all weak orderings of n variables as rank tuples"""
    out = []
    for t in itertools.product(range(n), repeat=n):
        k = max(t) + 1
        if set(t) == set(range(k)):
            out.append(t)
    return out


class Pos:
    """symbolic unsigned numbers with a fixed order type: rank k stands for every value of one interval, and different intervals are disjoint;
    with adjacent=True rank k+1 is exactly one more than rank k"""

    def __init__(self, st, name, ranks, adjacent=False, least=1):
        self.v = []
        for r in ranks:
            if adjacent:
                s = Sym(("pos", name))
                st.cons[s] = ((least, least + STEP),)
                self.v.append(s if r == 0 else Term("Add", (s, r)))
            else:
                s = Sym(("pos", name, r))
                lo = least + STEP * r
                st.cons[s] = ((lo, lo + STEP // 2),)
                self.v.append(s)


def lc(l, c):
    return Adt(LC, None, {0: l, 1: c})


def unref(I, st, v):
    while isinstance(v, Ref):
        v = I.read(st, (v.obj, v.path))
    return v


class Rel:
    def __init__(self, ctx):
        self.ctx, self.F = ctx, ctx.facts()
        self.n = 0

    def fn(self, suffix):
        r = [k for k in self.F.fns if k == suffix or k.endswith("::" + suffix)]
        if len(r) != 1:
            self.ctx.undec("no unique function %s" % suffix)
            return None
        return r[0]

    def impl(self, trait, method, self_ty):
        for im in self.F.impls:
            if im["trait"] and im["trait"].endswith(trait) and self.F.types[im["self"]]["s"].split("<")[0].endswith(self_ty) \
                    and self.F.types[im["self"]]["s"].rsplit("::", 1)[-1] == self_ty:
                r = dict(im["items"]).get(method) if not isinstance(im["items"], dict) else im["items"].get(method)
                if r:
                    return r
        return None

    def run(self, fn, args, st, refs=()):
        """outcomes of fn; arguments the function takes by reference are put behind one"""
        F = self.F
        a = []
        b = F.fns[fn]
        for i, v in enumerate(args):
            ty = F.types[b["locals"][i + 1]]["s"]
            if ty.startswith("&") and not isinstance(v, Ref):
                o = ("spanarg", i)
                st.mem[o] = v
                v = Ref(o, ())
            a.append(v)
        I = make_interp(F, None)
        self.n += 1
        return I, I.run(fn, a, st)

    def expect(self, fn, args, st, want, what, key):
        """want: python value compared after projection; 'panic' for a documented panic"""
        try:
            I, outs = self.run(fn, args, st)
        except Limit as e:
            self.ctx.undec("%s: %s" % (what, e))
            return
        for o in outs:
            if o.kind == "infeasible":
                continue
            if o.kind == "panic":
                if want == "panic":
                    self.ctx.ok()
                else:
                    self.ctx.bad(key, "%s (%s): %s panics%s" % (fn, self.F.loc(fn), what, ": " + str(o.why) if o.why else ""))
                continue
            if o.kind != "return":
                self.ctx.undec("%s: %s" % (what, o.why))
                continue
            if want == "panic":
                self.ctx.bad(key, "%s (%s): %s must panic" % (fn, self.F.loc(fn), what))
                continue
            g = norm(I, o.state, o.ret)
            r = None if g is None else same(I, o.state, g, want)
            if r is None:
                self.ctx.undec("%s: result %s" % (what, str(o.ret)[:80]))
            elif r:
                self.ctx.ok()
            else:
                self.ctx.bad(key, "%s (%s): %s gives %s, not %s" % (fn, self.F.loc(fn), what, pretty(g), pretty(want)))


def norm(I, st, v):
    """nested tuples (name, fields...) of a value"""
    v = unref(I, st, v)
    if isinstance(v, Adt):
        if v.name and v.name.endswith("cmp::Ordering"):
            return ("Ordering", v.variant)
        return (v.name.rsplit("::", 1)[-1] if v.name else "tuple", v.variant) + tuple(norm(I, st, v.fields[k]) for k in sorted(v.fields, key=str))
    return v


def pretty(v):
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        return "%s(%s)" % (v[1] or v[0], ", ".join(pretty(x) for x in v[2:]))
    return str(v)


def same(I, st, a, b):
    """True, False, or None when the analysis cannot tell"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = [same(I, st, x, y) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None if isinstance(a, (Sym, Term)) else False
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return int(a) == int(b)
    if isinstance(a, (Sym, Term)) or isinstance(b, (Sym, Term)):
        c = I.cmp(st, "Eq", a, b)
        return bool(c) if isinstance(c, int) else None
    return a == b


def tup(*xs):
    return Adt("()", None, dict(enumerate(xs)))


def location_li(l, c):
    return Adt(LOC, "LineColumn", {0: lc(l, c)})


def location_ci(i):
    return Adt(LOC, "CharacterIndex", {0: i})


def span(F, a, b):
    return Adt(SPAN, None, {F.fidx(SPAN, "start"): a, F.fidx(SPAN, "end"): b})


def lcs(F, a, b):
    return Adt(LCS, None, {F.fidx(LCS, "start"): a, F.fidx(LCS, "end"): b})


def order(a, b):
    return Adt(M.ORD, "Less" if a < b else "Greater" if a > b else "Equal", {})


def rule_spans(ctx):
    F = ctx.facts()
    ctx.rule("every relation between source positions is interpreted abstractly on every order type of the lines, columns and indices involved; "
             "its result is the lexicographic order, interval containment or interval overlap of the positions")
    ctx.assume("spans are well formed (start not after end); positions below 2^31")
    R = Rel(ctx)
    W2, W3, W4 = weak_orders(2), weak_orders(3), weak_orders(4)

    def variants(n_lines, n_cols, wl, wc, adj=(False, True)):
        for L in wl:
            for C in wc:
                for al in adj:
                    for ac in adj:
                        st = State()
                        yield st, list(zip(L, C)), list(zip(Pos(st, "line", L, al).v, Pos(st, "column", C, ac).v))

    # ---- order of locations
    for ty in ("Location", "LineColumn"):
        f = R.impl("cmp::PartialOrd", "partial_cmp", ty)
        if f is None:
            ctx.undec("no order of %s" % ty)
            continue
        for st, k, v in variants(2, 2, W2, W2):
            mk = location_li if ty == "Location" else lc
            R.expect(f, [mk(*v[0]), mk(*v[1])], st, norm(None, None, M.some(order(k[0], k[1]))), "order of %s %r and %r" % (ty, k[0], k[1]), "order:%s" % ty)
        if ty == "Location":
            for C in W2:
                for adj in (False, True):
                    st = State()
                    v = Pos(st, "index", C, adj, 0).v
                    R.expect(f, [location_ci(v[0]), location_ci(v[1])], st, norm(None, None, M.some(order(C[0], C[1]))),
                             "order of character indices %r" % (C,), "order:index")
            for sw in (0, 1):
                st = State()
                v = Pos(st, "index", (0, 1, 2)).v
                a = [location_ci(v[0]), location_li(v[1], v[2])]
                R.expect(f, a[::-1] if sw else a, st, norm(None, None, M.NONE), "order of a character index and a line and column", "order:mixed")
    # ---- containment
    f = R.fn("LineColumnSpan::contains")
    if f:
        for st, k, v in variants(3, 3, W3, W3):
            if k[0] <= k[1]:
                R.expect(f, [lcs(F, lc(*v[0]), lc(*v[1])), lc(*v[2])], st, int(k[0] <= k[2] <= k[1]),
                         "whether %r to %r contains %r" % (k[0], k[1], k[2]), "contains")
    # ---- overlap
    for f, mk, nm in ((R.fn("LineColumnSpan::overlaps"), lambda a, b: lcs(F, lc(*a), lc(*b)), "line and column spans"),
                      (R.fn("source::Span::overlaps"), lambda a, b: span(F, location_li(*a), location_li(*b)), "spans")):
        if f is None:
            continue
        for st, k, v in variants(4, 4, W4, W4, (False, True) if ctx.tier == "thorough" else (False,)):
            if k[0] <= k[1] and k[2] <= k[3]:
                R.expect(f, [mk(v[0], v[1]), mk(v[2], v[3])], st, int(k[0] <= k[3] and k[2] <= k[1]),
                         "whether the %s %r to %r and %r to %r overlap" % (nm, k[0], k[1], k[2], k[3]), "overlaps:" + nm)
    cs = lambda a, b: Adt(CS, None, {0: a, 1: b})
    items = [("source::Span::overlaps", lambda a, b: span(F, location_ci(a), location_ci(b)), "ov"),
             ("CharacterSpan::intersects", cs, "ov"), ("CharacterSpan::contains_span", cs, "in"),
             ("utils::is_interval_member", tup, "in"), ("utils::intersection", tup, "is")]
    for suffix, mk, rel in items:
        f = R.fn(suffix)
        if f is None:
            continue
        for k in W4:
            if k[0] > k[1] or k[2] > k[3]:
                continue
            for adj in (False, True):
                st = State()
                v = Pos(st, "index", k, adj).v
                ov = k[0] <= k[3] and k[2] <= k[1]
                if rel == "ov":
                    want = int(ov)
                elif rel == "in":
                    want = int(k[0] <= k[2] and k[3] <= k[1])
                else:
                    at = lambda r: v[k.index(r)]
                    want = norm(None, None, M.some(tup(at(max(k[0], k[2])), at(min(k[1], k[3]))))) if ov else norm(None, None, M.NONE)
                R.expect(f, [mk(v[0], v[1]), mk(v[2], v[3])], st, want, "%s of %r to %r and %r to %r" % (suffix, k[0], k[1], k[2], k[3]), suffix)
    f = R.fn("source::Span::overlaps")
    if f:
        for sw in (0, 1):
            st = State()
            v = Pos(st, "index", (0, 1, 2, 3)).v
            a = [span(F, location_ci(v[0]), location_ci(v[1])), span(F, location_li(v[0], v[1]), location_li(v[2], v[3]))]
            R.expect(f, a[::-1] if sw else a, st, "panic", "overlap of spans of different kinds", "overlaps:mixed")
    # ---- constructors and accessors
    def mkst(n):
        st = State()
        return st, Pos(st, "p", tuple(range(n))).v
    for k in ("li", "ci"):
        def ends(v, sw=False):
            a, b = (location_li(v[0], v[2]), location_li(v[1], v[3])) if k == "li" else (location_ci(v[0]), location_ci(v[1]))
            return (b, a) if sw else (a, b)
        for suffix, args, want in (
                ("source::Span::start", lambda a, b: [span(F, a, b)], lambda a, b: a),
                ("source::Span::end", lambda a, b: [span(F, a, b)], lambda a, b: b),
                ("source::Span::start_end", lambda a, b: [span(F, a, b)], tup),
                ("source::Span::at", lambda a, b: [a], lambda a, b: span(F, a, a)),
                ("source::Span::new", lambda a, b: [a, b], lambda a, b: span(F, a, b)),
                ("source::Span::kind", lambda a, b: [span(F, a, b)],
                 lambda a, b: Adt(KIND, "LineColumnSpan", {0: lcs(F, a.fields[0], b.fields[0])}) if k == "li"
                 else Adt(KIND, "CharacterSpan", {0: Adt(CS, None, {0: a.fields[0], 1: b.fields[0]})}))):
            f = R.fn(suffix)
            if f:
                st, v = mkst(4)
                a, b = ends(v)
                R.expect(f, args(a, b), st, norm(None, None, want(a, b)), suffix, suffix)
        f = R.fn("source::Span::new")
        if f:
            st, v = mkst(4)
            R.expect(f, list(ends(v, True)), st, "panic", "a span whose start is after its end", "Span::new:order")
    f = R.fn("source::Span::line_column")
    if f:
        st, v = mkst(4)
        R.expect(f, [lc(v[0], v[2]), lc(v[1], v[3])], st, norm(None, None, span(F, location_li(v[0], v[2]), location_li(v[1], v[3]))), "Span::line_column", "Span::line_column")
        st, v = mkst(4)
        R.expect(f, [lc(v[1], v[2]), lc(v[0], v[3])], st, "panic", "a span whose start is after its end", "Span::line_column:order")
    f = R.fn("source::Span::from_character_span")
    if f:
        st, v = mkst(2)
        R.expect(f, [v[0], v[1]], st, norm(None, None, span(F, location_ci(v[0]), location_ci(v[1]))), "Span::from_character_span", "from_character_span")
    f = R.fn("CharacterSpan::to_rust_range")
    if f:
        st, v = mkst(2)
        R.expect(f, [cs(v[0], v[1])], st, norm(None, None, Adt("core::ops::range::Range", None, {0: Term("Sub", (v[0], 1)), 1: Term("Sub", (v[1], 1))})),
                 "the byte range of a character span", "to_rust_range")
    # ---- next and previous
    for k in ("li", "ci"):
        for suffix, d in (("source::Location::next", 1), ("source::Location::previous", -1)):
            f = R.fn(suffix)
            if f is None:
                continue
            st = State()
            v = Pos(st, "p", (0, 1), least=2).v
            mv = Term("Add" if d > 0 else "Sub", (v[1], 1))
            a, w = (location_li(v[0], v[1]), location_li(v[0], mv)) if k == "li" else (location_ci(v[1]), location_ci(mv))
            R.expect(f, [a], st, norm(None, None, w), suffix, suffix)
    # ---- orders of spans and sources follow their start
    fs, fo = R.impl("cmp::PartialOrd", "partial_cmp", "Span"), R.impl("cmp::PartialOrd", "partial_cmp", "Source")
    for f, wrap, nm in ((fs, lambda x: x, "spans"), (fo, lambda x: Adt(SOURCE, "Span", {0: x}), "sources")):
        if f is None:
            ctx.undec("no order of %s" % nm)
            continue
        for st, k, v in variants(4, 4, W2, W2, (False,)):
            e = Sym(("pos", "far"))
            st.cons[e] = ((STEP * 50, STEP * 60),)
            mk = lambda x: wrap(span(F, location_li(*x), location_li(e, e)))
            R.expect(f, [mk(v[0]), mk(v[1])], st, norm(None, None, M.some(order(k[0], k[1]))), "order of %s starting at %r and %r" % (nm, k[0], k[1]), "order:" + nm)
    ctx.count("abstract runs", R.n)
    ctx.floor("runs", R.n, 1000)
