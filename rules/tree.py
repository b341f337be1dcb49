"""Concrete syntax trees: the builder keeps what it is given (P16), tree functions reach every part (P17), aggregation
removes exactly trivia (P18)."""
import itertools
from interp import *
from models import cvec, items_of
from rules.common import *
from rules.lexer import TOKEN, KIND
from rules.tables import kinds as kind_names

CST = "cst::Cst"
SEQ = "NodeSeq"
BOX = "alloc::boxed::Box"
OPT = "core::option::Option"
PB = "ParseBuilder"


class Gen:
    """all values of a type up to the node level: nested trees are symbols c0, c1, ... in document order"""

    def __init__(self, F, n=3):
        self.F, self.n = F, n

    def fresh(self, box):
        box[0] += 1
        return Sym(("c", box[0] - 1))

    def values(self, ti, box, path, st):
        """yield values of type ti"""
        F = self.F
        t = F.types[ti]
        a = t.get("adt")
        if a == CST:
            yield self.fresh(box)
            return
        if a == SEQ or a and a.endswith("::" + SEQ):
            yield Adt(a, None, {0: cvec([self.fresh(box) for _ in range(self.n)])})
            return
        if a == BOX:
            st.n += 1
            o = ("heap", st.n)
            st.mem[o] = self.fresh(box)
            yield Adt(BOX, None, {0: Ref(o)})
            return
        if a and a.startswith("cst::") and a in F.adts and a != "cst::BoxKind":
            d = F.adts[a]
            for v in d["variants"]:
                yield Adt(a, v["name"] if d["kind"] == "enum" else None, {("f", i): (f, ti2) for i, (f, ti2, _) in enumerate(v["fields"])})
            return
        yield Sym(path)

    def build(self, ti, box, path, st):
        """list of (value, box count) -- enumerates the variants of call heads and bodies"""
        F = self.F
        out = []
        for v in self.values(ti, box, path, st):
            if isinstance(v, Adt) and any(isinstance(k, tuple) for k in v.fields):
                combos = [{}]
                for k in sorted(v.fields, key=lambda x: x[1]):
                    f, ti2 = v.fields[k]
                    nxt = []
                    for c in combos:
                        for w in self.build(ti2, box, path + (f,), st):
                            nxt.append({**c, k[1]: w})
                    combos = nxt
                out += [Adt(v.name, v.variant, c) for c in combos]
            else:
                out.append(v)
        return out

    def nodes(self):
        """[(variant name, value, state with heap)]"""
        F = self.F
        res = []
        for v in F.adts[CST]["variants"]:
            st = State()
            box = [0]
            for w in self.build(v["fields"][0][1], box, (v["name"],), st):
                # renumber the trees in document order
                res.append((v["name"], Adt(CST, v["name"], {0: w}), st.fork()))
        return res


def norm(I, st, v, seen=0):
    """value with boxes opened and vectors as tuples, for comparison and printing"""
    if seen > 40:
        return v
    if isinstance(v, Ref):
        return norm(I, st, I.read(st, (v.obj, v.path)), seen + 1)
    if isinstance(v, Adt):
        if v.name == BOX or v.name.endswith("boxed::Box"):
            return ("box", norm(I, st, v.fields.get(0), seen + 1))
        l = items_of(I, st, v)
        if l is not None and v.name in ("vec", "[]"):
            return tuple(norm(I, st, x, seen + 1) for x in l)
        return (v.name.split("::")[-1], v.variant) + tuple(norm(I, st, v.fields[k], seen + 1) for k in sorted(v.fields, key=str)) + (
            (("base", v.base),) if v.base is not None else ())
    return v


def children(n):
    """symbols of subtrees, in order"""
    out = []
    if isinstance(n, tuple):
        for x in n:
            out += children(x)
    elif isinstance(n, Sym) and isinstance(n.id, tuple) and n.id[0] == "c":
        out.append(n)
    return out


def subst(n, f):
    if isinstance(n, tuple):
        return tuple(subst(x, f) for x in n)
    if isinstance(n, Sym):
        return f(n)
    return n


def resolved(n):
    """no leftovers of unresolved calls"""
    if isinstance(n, tuple):
        return all(resolved(x) for x in n)
    if isinstance(n, Sym):
        return not (isinstance(n.id, tuple) and n.id and n.id[0] in ("ret", "opaque", "havoc"))
    return not isinstance(n, Term)


def show(n):
    if isinstance(n, tuple):
        if n[:1] == ("base",):
            return ""
        return "(" + " ".join(show(x) for x in n if x is not None) + ")"
    if isinstance(n, Sym):
        i = n.id
        if isinstance(i, tuple) and i[0] == "c":
            return "child%d" % i[1]
        return ".".join(map(str, i)) if isinstance(i, tuple) and all(isinstance(x, (str, int)) for x in i) else str(n)
    return str(n)


def is_child(I, st, v):
    while isinstance(v, Ref):
        v = I.read(st, (v.obj, v.path))
    return v if isinstance(v, Sym) and isinstance(v.id, tuple) and v.id[0] == "c" else None


def fn_of(F, *ends):
    for e in ends:
        r = [k for k in F.fns if k == e or k.endswith(e)]
        if r:
            return r[0]
    return None


# ---------------------------------------------------------------- traversals (P17)
def rule_traverse(ctx):
    F = ctx.facts()
    ctx.rule("for every variant of Cst (and of call heads and bodies) with symbolic subtrees: visit and visit_mut call the visitor once on the "
             "node and once per subtree in order; map_visit and into_owned_input rebuild the same node with every subtree mapped; get_source "
             "spans from the first to the last part; Span::between takes the start of the first and the end of the second")
    nodes = Gen(F).nodes()
    ctx.count("node variants", len(nodes))
    n = 0
    for m in ("visit", "visit_mut"):
        n += check_visit(ctx, F, nodes, m)
    n += check_map(ctx, F, nodes)
    n += check_owned(ctx, F, nodes)
    n += check_source(ctx, F, nodes)
    n += check_between(ctx, F)
    ctx.floor("tree functions x variants", n, 60)


def run_node(ctx, F, fn, name, v, st, pol, extra, byref):
    I = make_interp(F, pol, loop_limit=8)
    st = st.fork()
    st.mem["node"] = v
    st.mem["$visitor"] = Adt("$visitor", None, {})
    try:
        return I, I.run(fn, [Ref("node") if byref else v] + extra, st)
    except Limit as e:
        ctx.undec("%s on %s: %s" % (F.loc(fn), name, e))
        return I, None


def visitor_call(I, st, decl, args):
    if decl in ("core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call", "core::ops::function::FnOnce::call_once") and args:
        v = args[0]
        while isinstance(v, Ref):
            v = I.read(st, (v.obj, v.path))
        if isinstance(v, Adt) and v.name == "$visitor":
            t = args[1]
            return t.fields.get(0) if isinstance(t, Adt) and t.name in ("()", "$tuple", "tuple") or isinstance(t, Adt) and 0 in t.fields and len(t.fields) == 1 else t
    return None


def check_visit(ctx, F, nodes, m):
    fn = fn_of(F, "<impl cst::Cst<I, S>>::" + m)
    if not fn:
        ctx.undec("Cst::%s not found" % m)
        return 0
    n = 0
    for name, v, st0 in nodes:
        def pol(I, st, nm, decl, k, args, t):
            x = visitor_call(I, st, decl, args)
            if x is not None:
                c = is_child(I, st, x)
                st.emit("visit", c if c is not None else ("self" if isinstance(x, Ref) and x.obj == "node" and not x.path else "?"))
                return ("ret", UNIT)
            if nm == fn and len(st.frames) > 0 and is_child(I, st, args[0]) is not None:
                st.emit("visit", is_child(I, st, args[0]))
                return ("ret", UNIT)
            return None
        I, outs = run_node(ctx, F, fn, name, v, st0, pol, [Ref("$visitor")], True)
        if outs is None:
            continue
        want = ["self"] + children(norm(I, st0, v))
        for o in outs:
            n += 1
            got = [e[1] for e in o.state.events() if e[0] == "visit"]
            if o.kind == "return" and got == want:
                ctx.ok()
            elif o.kind in ("cut",) or "?" in got or any(e[0] == "opaque" for e in o.state.events()):
                ctx.undec("%s on %s: not resolved" % (F.loc(fn), name))
            else:
                ctx.bad("%s:%s" % (m, name), "%s: on a %s node visits %s, expected %s" % (F.loc(fn), name, list(map(show, got)), list(map(show, want))))
    return n


def check_map(ctx, F, nodes):
    fn = fn_of(F, "<impl cst::Cst<I, S>>::map_visit")
    if not fn:
        ctx.undec("Cst::map_visit not found")
        return 0
    n = 0
    prime = lambda s: Sym(("c", s.id[1], "new")) if isinstance(s.id, tuple) and s.id[0] == "c" else Sym(("new",) + (s.id if isinstance(s.id, tuple) else (s.id,)))
    for name, v, st0 in nodes:
        def renew(I, st, x):
            if isinstance(x, Adt):
                if x.name == BOX:
                    o, p = I.deref(st, x.fields[0])
                    st.n += 1
                    h = ("heap", st.n)
                    st.mem[h] = renew(I, st, I.read(st, (o, p)))
                    return Adt(BOX, None, {0: Ref(h)})
                return Adt(x.name, x.variant, {k: renew(I, st, y) for k, y in x.fields.items()}, x.base)
            return prime(x) if isinstance(x, Sym) else x

        def pol(I, st, nm, decl, k, args, t):
            x = visitor_call(I, st, decl, args)
            if x is not None:
                st.emit("visit", "self" if isinstance(x, Adt) and x.name == CST else "?")
                return ("ret", renew(I, st, x))
            if nm == fn and len(st.frames) > 0:
                c = is_child(I, st, args[0])
                if c is not None:
                    return ("ret", Sym(("mapped", c)))
            return None
        I, outs = run_node(ctx, F, fn, name, v, st0, pol, [Ref("$visitor")], False)
        if outs is None:
            continue
        base = norm(I, st0, v)
        want = subst(base, lambda s: Sym(("mapped", prime(s))) if isinstance(s.id, tuple) and s.id[0] == "c" else prime(s))
        n += compare(ctx, F, I, fn, "map_visit", name, outs, want, lambda o: [e[1] for e in o.state.events() if e[0] == "visit"] == ["self"])
    return n


def compare(ctx, F, I, fn, what, name, outs, want, also=None):
    n = 0
    for o in outs:
        n += 1
        if o.kind == "return":
            got = norm(I, o.state, o.ret)
            if got == want and (also is None or also(o)):
                ctx.ok()
                continue
            if resolved(got):
                ctx.bad("%s:%s" % (what, name), "%s: %s of a %s node gives %s, expected %s" % (F.loc(fn), what, name, show(got)[:200], show(want)[:200]))
                continue
        elif o.kind == "panic":
            ctx.bad("%s:%s:panic" % (what, name), "%s: %s of a %s node panics" % (F.loc(fn), what, name))
            continue
        ctx.undec("%s on %s: not resolved" % (F.loc(fn), name))
    return n


def check_owned(ctx, F, nodes):
    fn = fn_of(F, "cst::Cst::<I, S>::into_owned_input")
    tk = fn_of(F, "Token::<I, S>::into_owned_input")
    if not fn or not tk:
        ctx.undec("into_owned_input not found")
        return 0
    n = 0
    for name, v, st0 in nodes:
        def pol(I, st, nm, decl, k, args, t):
            if nm == tk:
                return ("ret", Sym(("owned", args[0])))
            if nm == fn and len(st.frames) > 0:
                c = is_child(I, st, args[0])
                if c is not None:
                    return ("ret", Sym(("owned", c)))
            return None
        I, outs = run_node(ctx, F, fn, name, v, st0, pol, [], False)
        if outs is None:
            continue
        want = subst(norm(I, st0, v), lambda s: Sym(("owned", s)) if isinstance(s.id, tuple) and (s.id[0] == "c" or s.id == ("Token",)) else s)
        n += compare(ctx, F, I, fn, "into_owned_input", name, outs, want)
    # the token itself: same kind and source, the same text
    st = State()
    I = make_interp(F, None)
    tok = Adt(TOKEN, None, {i: Sym(("tok", f[0])) for i, f in enumerate(F.adts[TOKEN]["variants"][0]["fields"])})
    try:
        for o in I.run(tk, [tok], st):
            n += 1
            r = o.ret
            good = isinstance(r, Adt) and r.fields.get(F.fidx(TOKEN, "tok")) == Sym(("tok", "tok")) and r.fields.get(F.fidx(TOKEN, "src")) == Sym(("tok", "src"))
            if good:
                ctx.ok()
            elif isinstance(r, Adt):
                ctx.bad("into_owned_input:token", "%s: changes the kind or source of the token" % F.loc(tk))
            else:
                ctx.undec("%s: not resolved" % F.loc(tk))
    except Limit:
        ctx.undec("%s: not resolved" % F.loc(tk))
    return n


def ends(n):
    """(first, last) of nested between values"""
    if isinstance(n, tuple) and n[:1] == ("$between",):
        return ends(n[2])[0], ends(n[3])[1]
    return n, n


def check_source(ctx, F, nodes):
    fn = fn_of(F, "cst::Cst::<I, S>::get_source")
    fs = fn_of(F, "cst::Cst::<I, S>::source")
    if not fn:
        ctx.undec("Cst::get_source not found")
        return 0
    n = 0
    for name, v, st0 in nodes:
        def pol(I, st, nm, decl, k, args, t):
            d = decl or nm
            if d.endswith("TokenSource::between"):
                return ("ret", Adt("$between", None, {0: args[0], 1: args[1]}))
            if nm in (fn, fs) and len(st.frames) > 0:
                c = is_child(I, st, args[0])
                if c is not None:
                    return ("ret", Sym(("src", c)))
            return None
        I, outs = run_node(ctx, F, fn, name, v, st0, pol, [], True)
        if outs is None:
            continue
        cs = children(norm(I, st0, v))
        for o in outs:
            n += 1
            if o.kind != "return":
                ctx.undec("%s on %s: %s" % (F.loc(fn), name, o.kind))
                continue
            got = ends(norm(I, o.state, o.ret))
            if name in ("Token", "Box", "Code"):
                ty = F.adts[CST]["variants"]
                ok = got[0] == got[1] and isinstance(got[0], Sym) and not children(got[0]) and is_src_of(F, got[0], name)
                want = "its own source"
            else:
                ok = got == (Sym(("src", cs[0])), Sym(("src", cs[-1])))
                want = "first to last part"
            if ok:
                ctx.ok()
            elif resolved(got):
                ctx.bad("get_source:%s" % name, "%s: the source of a %s node is %s, expected %s" % (F.loc(fn), name, show(got)[:160], want))
            else:
                ctx.undec("%s on %s: not resolved" % (F.loc(fn), name))
    return n


def is_src_of(F, s, name):
    i = s.id
    if i == (name, "src"):
        return True
    # field of an opaque token
    return isinstance(i, tuple) and i[0] == "." and i[1] == (name,) and i[2] == F.fidx(TOKEN, "src")


def check_between(ctx, F):
    fn = fn_of(F, "<source::Span as tokenize::token::TokenSource>::between")
    if not fn:
        ctx.undec("Span::between not found")
        return 0
    n = 0
    SP = "source::Span"
    d = F.adts[SP]
    LOCS = F.adts[LOC]
    if [f[0] for f in d["variants"][0]["fields"]] != ["start", "end"]:
        ctx.undec("Span is not a pair of locations")
        return 0
    for conv in ("LineColumn", "CharacterIndex"):
        def loc(w):
            if conv == "LineColumn":
                return Adt(LOC, conv, {0: Adt(LC, None, {0: Sym((w, "line")), 1: Sym((w, "col"))})})
            return Adt(LOC, conv, {0: Sym((w, "idx"))})
        a = Adt(SP, None, {0: loc("a0"), 1: loc("a1")})
        b = Adt(SP, None, {0: loc("b0"), 1: loc("b1")})
        I = make_interp(F, None)
        try:
            outs = I.run(fn, [a, b], State())
        except Limit:
            outs = []
        for o in outs:
            if o.kind == "panic":
                continue
            n += 1
            if o.kind == "return" and o.ret == Adt(SP, None, {0: loc("a0"), 1: loc("b1")}):
                ctx.ok()
            elif o.kind == "return" and isinstance(o.ret, Adt):
                ctx.bad("between", "%s: the span between two spans is %s" % (F.loc(fn), o.ret))
            else:
                ctx.undec("%s: not resolved" % F.loc(fn))
    return n


# ---------------------------------------------------------------- aggregation (P18)
TRIVIA_KINDS = {"Comment", "InternalNewline", "ToplevelNewline", "Boxes_MultiWhitespace", "Whitespace"}


def rule_aggregate(ctx):
    F = ctx.facts()
    ctx.rule("aggregate_cst answers nothing exactly for trivia tokens and comment groups; every other node keeps its variant, operator, error kind "
             "and source, and its children are the aggregated children in order with exactly the removed ones missing")
    fn = fn_of(F, "abstract_cst::aggregate_cst")
    if not fn:
        raise Exception("aggregate_cst not found")
    n = 0
    G = Gen(F)
    # tokens of every kind
    for k in kind_names(F):
        tok = Adt(TOKEN, None, {F.fidx(TOKEN, "tok"): Adt(KIND, k, {}), F.fidx(TOKEN, "input"): Sym("i"), F.fidx(TOKEN, "src"): Sym("s")})
        v = Adt(CST, "Token", {0: tok})
        I = make_interp(F, None)
        n += 1
        rs = {(o.kind, norm(I, o.state, o.ret)) for o in I.run(fn, [v], State())}
        want = ("Option", "None") if k in TRIVIA_KINDS else ("Option", "Some", norm(I, State(), v))
        if rs == {("return", want)}:
            ctx.ok()
        else:
            ctx.bad("aggregate:token:%s" % k, "%s: a %s token %s" % (F.loc(fn), k, "is kept" if k in TRIVIA_KINDS else "is removed or changed"))
    for name, v, st0 in G.nodes():
        if name == "Token":
            continue
        ops = [None]
        oi = None
        inner = v.fields[0]
        on = inner.fields.get(0) if isinstance(inner, Adt) else None
        if isinstance(on, Adt) and on.name == "cst::OperatorNode":
            oi = F.fidx("cst::OperatorNode", "op")
            enum = {"Group": "GroupOperator", "GroupMissingCloser": "GroupOperator", "GroupMissingOpener": "GroupOperator", "Infix": "InfixOperator",
                    "Prefix": "PrefixOperator", "Postfix": "PostfixOperator", "Binary": "BinaryOperator", "Ternary": "TernaryOperator",
                    "PrefixBinary": "PrefixBinaryOperator", "Compound": "CompoundOperator"}[name]
            a = [x for x in F.adts if x.endswith("::" + enum)]
            ops = [Adt(a[0], w["name"], {}) for w in F.adts[a[0]]["variants"]]
        for op in ops:
            w = v
            if op is not None:
                w = Adt(CST, name, {0: Adt(inner.name, None, {0: Adt(on.name, None, {**on.fields, oi: op})})})
            n += agg_one(ctx, F, fn, name, op, w, st0)
    ctx.floor("aggregated shapes", n, 700)


def agg_one(ctx, F, fn, name, op, v, st0):
    def pol(I, st, nm, decl, k, args, t):
        if nm == fn and len(st.frames) > 0:
            c = is_child(I, st, args[0])
            if c is not None:
                s2 = st.fork()
                s2.emit("dropped", c)
                return ("outs", [(st, Adt(OPT, "Some", {0: Sym(("agg", c))})), (s2, Adt(OPT, "None", {}))])
        if nm.split("::")[-1].startswith("fmt") or "assert_failed" in nm:
            return None
        return None
    I, outs = run_node(ctx, F, fn, name, v, st0, pol, [], False)
    if outs is None:
        return 0
    base = norm(I, st0, v)
    n = 0
    concrete = "Concrete" in str(base)
    label = name + (" (%s)" % op.variant if op is not None else "")
    for o in outs:
        n += 1
        gone = {e[1] for e in o.state.events() if e[0] == "dropped"}
        if name == "Group" and op.variant == "Token_Comment":
            want = ("Option", "None")
        else:
            def red(x):
                if isinstance(x, tuple):
                    if x[:2] == ("CallHead", "Concrete"):
                        kept = [y for y in children(x) if y not in gone]
                        return ("CallHead", "Aggregate", ("box", Sym(("agg", kept[0])) if kept else None))
                    return tuple(red(y) for y in x if y not in gone)
                if isinstance(x, Sym) and isinstance(x.id, tuple) and x.id[0] == "c":
                    return Sym(("agg", x))
                return x
            want = ("Option", "Some", red(base))
        if name == "Call":
            head = children(base[2][2]) if concrete else []
            if not concrete or len([c for c in head if c not in gone]) != 1:
                # a head has one part besides trivia; aggregated heads do not occur here
                n -= 1
                continue
        if o.kind == "return":
            got = norm(I, o.state, o.ret)
            if got == want:
                ctx.ok()
                continue
            if resolved(got):
                ctx.bad("aggregate:%s" % label, "%s: a %s node becomes %s, expected %s" % (F.loc(fn), label, show(got)[:200], show(want)[:200]))
                continue
        elif o.kind == "panic":
            ctx.bad("aggregate:%s:panic" % label, "%s: aggregating a %s node panics" % (F.loc(fn), label))
            continue
        ctx.undec("%s on %s: not resolved" % (F.loc(fn), label))
    return n


# ---------------------------------------------------------------- the tree builder (P16)
BUILDER = "<parse_cst::ParseCst<'i> as parse::ParseBuilder<'i>>::"
OPS = {"Prefix": "PrefixOperator", "Postfix": "PostfixOperator", "Binary": "BinaryOperator", "Ternary": "TernaryOperator", "Infix": "InfixOperator",
       "PrefixBinary": "PrefixBinaryOperator", "Group": "GroupOperator", "Compound": "CompoundOperator", "Call": "CallOperator"}


class Script:
    """runs a sequence of builder methods on the state of one builder; every value is what the code computes"""

    def __init__(self, ctx, F):
        self.ctx, self.F = ctx, F
        self.I = make_interp(F, self.pol, loop_limit=12)
        self.reset()

    def reset(self):
        self.st = State()
        self.ntok = 0
        self.st.mem["$b"] = self.call("new_builder", [])

    def pol(self, I, st, nm, decl, k, args, t):
        if nm.endswith("error::reparse_unterminated"):
            return ("ret", args[0])
        if nm.endswith("error::reparse_unterminated_group_node"):
            return ("ret", Adt("$reparsed", None, {0: args[0]}))
        return None

    def run(self, fn, args):
        outs = [o for o in self.I.run(fn, args, self.st) if o.kind != "infeasible"]
        if any(o.kind == "panic" for o in outs):
            raise Panics(fn)
        if any(o.kind != "return" for o in outs):
            raise Unresolved(fn)
        # debug output and the like may fork; the forks have to agree
        r = {(norm(self.I, o.state, o.ret), norm(self.I, o.state, o.state.mem.get("$b")) if "$b" in o.state.mem else None) for o in outs}
        if len(r) != 1:
            raise Unresolved(fn)
        self.st = outs[0].state.fork()
        self.st.frames = []
        return outs[0].ret

    def call(self, m, args):
        return self.run(BUILDER + m, args)

    def on(self, m, *args):
        """call a method of the builder, the arguments matched to the parameters by type; the rest are units"""
        F = self.F
        f = F.fns.get(BUILDER + m)
        if f is None:
            raise Unresolved(BUILDER + m)
        args = list(args)
        out = [Ref("$b")]
        for i in range(1, f["argc"]):
            t = F.types[f["locals"][i + 1]["ty"] if isinstance(f["locals"][i + 1], dict) else f["locals"][i + 1]]
            if t.get("k") == "tuple" and not t.get("args"):
                out.append(UNIT)
            else:
                if not args:
                    raise Unresolved(BUILDER + m)
                out.append(args.pop(0))
        return self.call(m, out)

    def tok(self, kind):
        F = self.F
        self.ntok += 1
        return Adt(TOKEN, None, {F.fidx(TOKEN, "tok"): Adt(KIND, kind, {}), F.fidx(TOKEN, "input"): Sym(("text", self.ntok)), F.fidx(TOKEN, "src"): Sym(("src", self.ntok))})

    def leaf(self, kind="Symbol"):
        t = self.tok(kind)
        self.on("push_leaf", t)
        return Adt(CST, "Token", {0: t})

    def syntax(self, kind="Comma"):
        t = self.tok(kind)
        self.on("push_syntax", t)
        return Adt(CST, "Token", {0: t})

    def trivia(self, kinds=("Whitespace", "InternalNewline")):
        acc = self.on("resettable_trivia_begin")
        self.st.mem["$acc"] = acc
        ts = []
        for k in kinds:
            t = self.tok(k)
            ts.append(Adt(CST, "Token", {0: t}))
            self.on("resettable_trivia_push", Ref("$acc"), t)
        h = self.on("resettable_trivia_end", self.st.mem["$acc"])
        return h, ts

    def push_trivia(self, kinds=("Whitespace", "InternalNewline")):
        h, ts = self.trivia(kinds)
        self.on("push_trivia_seq", h)
        return ts

    def finish(self, n):
        """pop n expressions, then the finished sequence"""
        for _ in range(n):
            self.on("finish_top_level_expr")
        self.st.mem["$opts"] = Sym("opts")
        self.st.mem["$in"] = Sym("input")
        r = self.call("finish", [self.st.mem["$b"], Ref("$in"), Ref("$opts")])
        r = norm(self.I, self.st, r)
        return r


class Panics(Exception):
    pass


class Unresolved(Exception):
    pass


def opvals(F, name):
    a = [x for x in F.adts if x.endswith("operators::" + name)]
    return [Adt(a[0], v["name"], {}) for v in F.adts[a[0]]["variants"]] if a else []


def rule_builder(ctx):
    F = ctx.facts()
    ctx.rule("the tree builder is run, method by method, on symbolic tokens: every reduce method replaces exactly the nodes of its context by one "
             "node of its variant with the operator given and those nodes as children in order; pushes add one leaf; a trivia sequence is added "
             "whole and in order or handed back with its first token; finished nodes come out in the order they were finished")
    if BUILDER + "new_builder" not in F.fns:
        ctx.undec("no tree builder found")
        ctx.floor("builder scripts", 0, 0)
        return
    n = [0]

    def case(key, what, body):
        n[0] += 1
        try:
            S = Script(ctx, F)
            r = body(S)
        except Panics as e:
            ctx.bad("builder:%s:panic" % key, "%s: %s panics" % (F.loc(e.args[0]), what))
            return
        except (Unresolved, Limit) as e:
            ctx.undec("%s: %s not resolved (%s)" % (what, "builder", e))
            return
        if r is None:
            ctx.ok()
        elif resolved(r[0]):
            ctx.bad("builder:%s" % key, "%s: %s gives %s, expected %s" % (F.loc(BUILDER + r[2]), what, show(r[0])[:700], show(r[1])[:700]))
        else:
            ctx.undec("%s: not resolved: %s" % (what, show(r[0])[:200]))

    def seq_of(S, nodes):
        return tuple(norm(S.I, S.st, x) for x in nodes)

    def out_is(S, got, want, m):
        """compare a finished sequence with the nodes wanted"""
        want = ("NodeSeq", None, tuple(want))
        return None if got == want else (got, want, m)

    def node(variant, inner, op, kids):
        return ("Cst", variant, (inner, None, ("OperatorNode", None, ) + ordered(F, op, kids)))

    def family(m, variant, ops, pre=None):
        for op in ops:
            def body(S):
                x0 = S.leaf()
                x1 = S.leaf()
                c = S.on("begin_context")
                kids = [x1] + S.push_trivia() + [S.syntax()] + S.push_trivia(("Comment",)) + [S.leaf()]
                if pre == "infix":
                    state = S.on("begin_infix", op)
                    S.st.mem["$is"] = state
                    S.on("infix_add", Ref("$is"))
                    kids += [S.syntax(), S.leaf()]
                    S.on("infix_add", Ref("$is"))
                    S.on(m, c, S.st.mem["$is"])
                elif pre == "group":
                    state = S.on("begin_group")
                    S.st.mem["$is"] = state
                    S.on("group_add", Ref("$is"))
                    kids += [S.syntax(), S.leaf()]
                    S.on("group_add", Ref("$is"))
                    if m == "reduce_unterminated_group":
                        S.on(m, c, Sym("text"), Sym("tab_width"), op, S.st.mem["$is"])
                    else:
                        S.on(m, c, op, S.st.mem["$is"])
                elif m == "reduce_prefix_get":
                    S.on(m, c, op, S.tok("String"))
                else:
                    S.on(m, c, op)
                kids = seq_of(S, kids)
                got = S.finish(2)
                if m == "reduce_unterminated_group":
                    w = ("Cst", variant, ("$reparsed", None, pair(got, norm(S.I, S.st, op), ("NodeSeq", None, kids))))
                else:
                    w = node(variant, variant + "Node", norm(S.I, S.st, op), kids)
                return out_is(S, got, [w, norm(S.I, S.st, x0)], m)
            case("%s:%s" % (m, op.variant), "%s with %s" % (m, op.variant), body)

    for m, v, e, pre in (
            ("reduce_prefix", "Prefix", "Prefix", None), ("reduce_postfix", "Postfix", "Postfix", None), ("reduce_binary", "Binary", "Binary", None),
            ("reduce_binary_unset", "Binary", "Binary", None), ("reduce_ternary", "Ternary", "Ternary", None),
            ("reduce_ternary_tag_unset", "Ternary", "Ternary", None), ("reduce_prefix_binary", "PrefixBinary", "PrefixBinary", None),
            ("reduce_infix", "Infix", "Infix", "infix"), ("reduce_group", "Group", "Group", "group"),
            ("reduce_group_missing_closer", "GroupMissingCloser", "Group", "group"),
            ("reduce_unterminated_group", "GroupMissingCloser", "Group", "group")):
        family(m, v, opvals(F, OPS[e]), pre)
    family("reduce_prefix_get", "Prefix", [o for o in opvals(F, "PrefixOperator") if o.variant == "Get"])

    # calls: head and trivia, then the group
    calls = {o.variant: o for o in opvals(F, "CallOperator")}
    for miss in (0, 1):
        for op in opvals(F, "GroupOperator"):
            if op.variant not in calls:
                continue

            def body(S):
                x0 = S.leaf()
                x1 = S.leaf()
                c = S.on("begin_context")
                head = [x1] + S.push_trivia()
                kids = [S.syntax("OpenSquare")]
                c2 = S.on("begin_context")
                g = S.on("begin_group")
                kids += [S.leaf()] + S.push_trivia(("Comment",)) + ([] if miss else [S.syntax("CloseSquare")])
                S.on("reduce_group_missing_closer" if miss else "reduce_group", c2, op, g)
                S.on("reduce_call", c)
                got = S.finish(2)
                nm = "GroupMissingCloser" if miss else "Group"
                bodyn = ("CallBody", nm, (nm + "Node", None, ("OperatorNode", None) + ordered(F, norm(S.I, S.st, calls[op.variant]), seq_of(S, kids))))
                headn = ("CallHead", "Concrete", ("NodeSeq", None, seq_of(S, head)))
                w = ("Cst", "Call", ("CallNode", None, headn, bodyn))
                return out_is(S, got, [w, norm(S.I, S.st, x0)], "reduce_call")
            case("reduce_call:%s:%d" % (op.variant, miss), "reduce_call on a %s group%s" % (op.variant, " without closer" if miss else ""), body)

    # errors
    for v in F.adts["parse::SyntaxErrorData"]["variants"]:
        def body(S):
            x0 = S.leaf()
            x1 = S.leaf()
            c = S.on("begin_context")
            kids = [x1] + S.push_trivia() + [S.syntax(), S.leaf()]
            S.on("reduce_syntax_error", c, Adt("parse::SyntaxErrorData", v["name"], {i: UNIT for i in range(len(v["fields"]))}))
            got = S.finish(2)
            err = ("NodeSeq", None, seq_of(S, kids))
            k = [a for a in F.adts if a.endswith("::SyntaxErrorKind")][0]
            se = F.adts["cst::SyntaxErrorNode"]["variants"][0]["fields"]
            w = ("Cst", "SyntaxError", ("SyntaxErrorNode", None) + tuple(err if f[0] == "children" else ("SyntaxErrorKind", v["name"]) for f in se))
            return out_is(S, got, [w, norm(S.I, S.st, x0)], "reduce_syntax_error")
        case("reduce_syntax_error:" + v["name"], "reduce_syntax_error with %s" % v["name"], body)

    # compounds
    def compound(S, op, toks):
        return node("Compound", "CompoundNode", norm(S.I, S.st, op), tuple(norm(S.I, S.st, Adt(CST, "Token", {0: t})) if not isinstance(t, tuple) else t for t in toks))

    UND = "parse::UnderParseData"
    uf = [f[0] for v in F.adts[UND]["variants"] if v["name"] == "UnderSymbol" for f in v["fields"]]
    blanks = {"Under": "Blank", "UnderUnder": "BlankSequence", "UnderUnderUnder": "BlankNullSequence"}
    for uk, bop in blanks.items():
        for sym in (0, 1):
            for op in [None] + opvals(F, "CompoundOperator"):
                def body(S):
                    x0 = S.leaf()
                    u, s, h = S.tok(uk), S.tok("Symbol"), S.tok("Symbol")
                    bo = [o for o in opvals(F, "CompoundOperator") if o.variant == bop][0]
                    if sym:
                        data = Adt(UND, "UnderSymbol", {i: {"op": bo, "under": u, "symbol": s}[f] for i, f in enumerate(uf)})
                        under = compound(S, bo, [u, s])
                    else:
                        data = Adt(UND, "Under", {0: u})
                        under = norm(S.I, S.st, Adt(CST, "Token", {0: u}))
                    if op is None:
                        S.on("push_compound_blank", data)
                        w = under
                    else:
                        S.on("push_compound_pattern_blank", op, h, data)
                        w = compound(S, op, [h, under])
                    return out_is(S, S.finish(2), [w, norm(S.I, S.st, x0)], "push_compound_blank" if op is None else "push_compound_pattern_blank")
                case("blank:%s:%d:%s" % (uk, sym, op and op.variant), "a %s compound" % uk, body)
    for m, ks in (("push_compound_pattern_optional", [("Symbol", "UnderDot", None)]),
                  ("push_compound_slot", [("Hash", "Integer", "Slot"), ("Hash", "String", "Slot"), ("HashHash", "Integer", "SlotSequence")]),
                  ("push_compound_out", [("Percent", "Integer", "Out")])):
        for a, b, only in ks:
            for op in opvals(F, "CompoundOperator"):
                if only and op.variant != only:
                    continue

                def body(S):
                    x0 = S.leaf()
                    t1, t2 = S.tok(a), S.tok(b)
                    S.on(m, op, t1, t2)
                    return out_is(S, S.finish(2), [compound(S, op, [t1, t2]), norm(S.I, S.st, x0)], m)
                case("%s:%s:%s" % (m, b, op.variant), "%s with %s" % (m, op.variant), body)

    # trivia: whole and in order, or handed back
    for k in range(0, 4):
        ks = ("Whitespace", "Comment", "InternalNewline")[:k]

        def body(S):
            x0 = S.leaf()
            c = S.on("begin_context")
            ts = S.push_trivia(ks)
            S.on("reduce_prefix", c, opvals(F, "PrefixOperator")[0])
            w = node("Prefix", "PrefixNode", norm(S.I, S.st, opvals(F, "PrefixOperator")[0]), seq_of(S, [x0] + ts))
            return out_is(S, S.finish(1), [w], "push_trivia_seq")
        case("push_trivia:%d" % k, "push_trivia_seq of %d tokens" % k, body)

        def body(S):
            x0 = S.leaf()
            h, ts = S.trivia(ks)
            r = norm(S.I, S.st, S.on("reset_trivia_seq", h))
            w = ("Option", "Some", norm(S.I, S.st, ts[0])[2]) if ts else ("Option", "None")
            if r != w:
                return r, w, "reset_trivia_seq"
            return out_is(S, S.finish(1), [norm(S.I, S.st, x0)], "reset_trivia_seq")
        case("reset_trivia:%d" % k, "reset_trivia_seq of %d tokens" % k, body)

    # leaves of every kind, both pushes; finished nodes and trivia in order
    for kd in kind_names(F):
        for m in ("leaf", "syntax"):
            if kd in TRIVIA_KINDS or kd.startswith("Buffer"):
                continue

            def body(S):
                x = getattr(S, m)(kd)
                return out_is(S, S.finish(1), [norm(S.I, S.st, x)], "push_" + m)
            case("push_%s:%s" % (m, kd), "push_%s of %s" % (m, kd), body)
    for kd in sorted(TRIVIA_KINDS - {"Boxes_MultiWhitespace"}):
        def body(S):
            t1 = S.tok(kd)
            S.on("finish_top_level_trivia", t1)
            x = S.leaf()
            S.on("finish_top_level_expr")
            t2 = S.tok("Whitespace")
            S.on("finish_top_level_trivia", t2)
            return out_is(S, S.finish(0), [norm(S.I, S.st, y) for y in (Adt(CST, "Token", {0: t1}), x, Adt(CST, "Token", {0: t2}))], "finish_top_level_trivia")
        case("finish:%s" % kd, "finishing %s" % kd, body)

    tops(ctx, F, case)
    ctx.floor("builder scripts", n[0], 900)


def ordered(F, op, kids):
    fs = [f[0] for f in F.adts["cst::OperatorNode"]["variants"][0]["fields"]]
    return tuple(op if f == "op" else ("NodeSeq", None, kids) for f in fs)


def pair(got, op, kids):
    """the pair given to the reparse function, as the code represents tuples"""
    return ("()", None, op, kids)


OPTIONAL_COMPOUNDS = {"CodeParser_PatternBlank", "CodeParser_PatternBlankSequence", "CodeParser_PatternBlankNullSequence",
                      "Blank", "BlankSequence", "BlankNullSequence"}


def tops(ctx, F, case):
    """what may stand left of a colon, and when a product is implied after a span"""
    # kinds named Error_... are the error tokens (their classification is decided with the token tables)
    errs = {k for k in kind_names(F) if k.startswith("Error_")}
    makers = []
    for kd in kind_names(F):
        if kd in TRIVIA_KINDS or kd == "Colon" or kd.startswith("Buffer"):
            continue
        c = "Pattern" if kd == "Symbol" or kd in errs else "Optional" if kd in ("Under", "UnderUnder", "UnderUnderUnder") else "Error"
        makers.append(("token %s" % kd, lambda S, kd=kd: S.leaf(kd), c, 0))
    for fam, m in (("Prefix", "reduce_prefix"), ("Postfix", "reduce_postfix"), ("Binary", "reduce_binary"), ("Ternary", "reduce_ternary"),
                   ("PrefixBinary", "reduce_prefix_binary")):
        for op in opvals(F, OPS[fam]):
            def mk(S, m=m, op=op):
                S.leaf("Integer")
                c = S.on("begin_context")
                S.syntax()
                S.leaf()
                S.on(m, c, op)
            c = "Optional" if fam == "Binary" and op.variant == "Pattern" else "Error"
            makers.append(("%s %s" % (fam, op.variant), mk, c, int(fam in ("Binary", "Ternary") and op.variant == "Span")))
    for op in opvals(F, "InfixOperator"):
        def mk(S, op=op):
            S.leaf("Integer")
            c = S.on("begin_context")
            s = S.on("begin_infix", op)
            S.leaf()
            S.on("reduce_infix", c, s)
        makers.append(("Infix " + op.variant, mk, "Error", 0))
    for op in opvals(F, "GroupOperator"):
        def mk(S, op=op):
            S.syntax()
            c = S.on("begin_context")
            s = S.on("begin_group")
            S.leaf()
            S.on("reduce_group", c, op, s)
        makers.append(("Group " + op.variant, mk, "Error", 0))
    for op in opvals(F, "CompoundOperator"):
        def mk(S, op=op):
            S.on("push_compound_pattern_optional", op, S.tok("Symbol"), S.tok("UnderDot"))
        makers.append(("Compound " + op.variant, mk, "Optional" if op.variant in OPTIONAL_COMPOUNDS else "Error", 0))
    for name, mk, colon, span in makers:
        for tr in ((), ("Whitespace", "Comment")):
            def body(S):
                S.leaf("Symbol")
                mk(S)
                if tr:
                    S.push_trivia(tr)
                S.st.mem["$u"] = UNIT
                r = norm(S.I, S.st, S.on("check_colon_lhs", Ref("$u")))
                w = ("ColonLHS", colon)
                if r != w:
                    return r, w, "check_colon_lhs"
                r = norm(S.I, S.st, S.on("top_node_is_span"))
                if r != span:
                    return r, span, "top_node_is_span"
                return None
            case("top:%s" % name, "the node left of the operator being %s%s" % (name, " and trivia" if tr else ""), body)
