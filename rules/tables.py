"""Rules over compiler-evaluated constant tables and finite-domain function summaries."""
import os
from interp import *
from facts import REPO
from runner import Vacuous
import wldata

TK = "tokenize::token_kind::TokenKind"
OPS = "parse::operators::"
DATA = os.path.join(REPO, "CodeParser", "Data")


def interp(F, **kw):
    return Interp(F, kw.pop("policy", None), **kw)


def val(v):
    """decoded const -> plain python (int for wrappers)"""
    while isinstance(v, dict) and "ref" in v:
        v = v["ref"]
    return v


def num(v):
    while isinstance(v, dict):
        if "ref" in v:
            v = v["ref"]
        else:
            v = v["f"][0]
    return v


def const_named(F, suffix):
    r = [k for k in F.consts if k == suffix or k.endswith("::" + suffix)]
    if not r:
        raise Vacuous("constant %s not found" % suffix)
    return r[0]


def kinds(F):
    return [v["name"] for v in F.adts[TK]["variants"]]


def kind(F, name):
    return Adt(TK, name, {})


def eval_fn(F, fn, args, I=None, st=None):
    """summary of fn on constant arguments: set of (kind, value)"""
    I = I or interp(F)
    outs = I.run(fn, args, st or State())
    return I, outs


def eval1(F, fn, args, I=None):
    I, outs = eval_fn(F, fn, args, I)
    return [(o.kind, o.ret) for o in outs]


def to_json(v):
    return v


def parselet_table(F, which):
    """{token kind name: (parselet type name, [fields])} as compiled"""
    k = [k for k in F.consts if k.endswith("::%s_PARSELETS" % which)]
    if not k:
        raise Vacuous("%s parselet table not found" % which)
    v = val(F.consts[k[0]]["v"])
    variants = val(F.consts[const_named(F, "TokenKind::VARIANTS")]["v"])["arr"]
    out = {}
    for i, x in enumerate(v["arr"]):
        y = val(x)
        out[variants[i]["v"]] = (y["adt"].split("::")[-1], y.get("f", []))
    return out


def wl_table(name):
    t = wldata.load(os.path.join(DATA, name + ".wl"))
    return {r[1].split("`", 1)[1].replace("`", "_"): r[2] for r in t[1:] if isinstance(r, tuple) and r[0] == "Rule"}


def wl_precedence():
    """key -> (level, rightassoc)"""
    t = wldata.load(os.path.join(DATA, "Precedence.wl"))
    out = {}
    lvl = 0
    for r in t[1:]:
        key = r[1].split("`", 1)[1].replace("`", "_")
        v = r[2]
        if isinstance(v, tuple):
            lvl = lvl + 1 if v[1] == "Next" else v[1]
            out[key] = (lvl, v[2].endswith("`Right"))
        else:
            out[key] = out[v.split("`", 1)[1].replace("`", "_")]
    return out


def prec_consts(F):
    return {k.rsplit("::", 1)[1]: num(F.consts[k]["v"]) for k in F.consts
            if k.rsplit("::", 1)[1].isupper() and "recedence" in k and F.tys(F.consts[k]["t"]).endswith("precedence::Precedence")}


def prec_key(k):
    return k.replace("`", "_").upper()


# --------------------------------------------------------------------------------------
def greater_table(F):
    """term of Precedence::greater over two symbolic optional precedences"""
    fn = [k for k in F.fns if k.endswith("Precedence::greater")]
    return fn[0] if fn else None


def op_symbol(F, I, opname, variant):
    """symbol string that <Op as Operator>::to_symbol maps the variant to"""
    cand = [p for s, p in F.impl_methods("Operator", "to_symbol") if s.endswith(opname)]
    if not cand:
        return None
    st = State()
    st.mem["op"] = Adt(OPS + opname, variant, {})
    arg = Ref("op") if F.types[F.fns[cand[0]]["locals"][1]]["k"] == "ref" else st.mem["op"]
    outs = I.run(cand[0], [arg], st)
    r = [o for o in outs if o.kind == "return"]
    if len(r) != 1:
        return None
    return sym_string(I, r[0].state, r[0].ret)


def sym_string(I, st, v):
    """flatten a Symbol value to its text"""
    if isinstance(v, Ref):
        v = I.read(st, (v.obj, v.path))
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Adt):
        for x in v.fields.values():
            r = sym_string(I, st, x)
            if r is not None:
                return r
    if isinstance(v, Sym) and isinstance(v.id, tuple) and v.id[0] == "const":
        return v.id[1]
    return None


# ====================================================================== P04 operator grammar
LEAF_EXPECT = {  # parselets without data fields: the precedence names they may answer with
    "TildeParselet": {"TILDE"}, "SlashColonParselet": {"SLASHCOLON"}, "CommaParselet": {"COMMA"}, "SemiParselet": {"SEMI"},
    "ColonColonParselet": {"COLONCOLON"}, "GreaterGreaterParselet": {"GREATERGREATER"},
    "GreaterGreaterGreaterParselet": {"GREATERGREATERGREATER"}, "SemiSemiParselet": {"SEMISEMI"}, "TimesParselet": {"STAR"},
    "CallParselet": {"CALL"}, "ColonParselet": {"FAKE_OPTIONALCOLON", "HIGHEST"}, "InfixDifferentialDParselet": {None, "FAKE_IMPLICITTIMES"},
    "InfixToplevelNewlineParselet": {None}, "InfixAssertFalseParselet": {None},
    "EqualParselet": {"EQUAL"}, "ColonEqualParselet": {"COLONEQUAL"},
}


def opt_prec(v):
    """Option<Precedence> value -> int / None / '?'"""
    if isinstance(v, Adt) and v.variant == "None":
        return None
    if isinstance(v, Adt) and v.variant == "Some":
        x = v.fields[0]
        while isinstance(x, Adt) and 0 in x.fields:
            x = x.fields[0]
        return x if isinstance(x, int) else "?"
    return "?"


def impl_fn(F, trait, tyname, method):
    r = [p for s, p in F.impl_methods(trait, method) if s.split("<")[0].endswith("::" + tyname) or s.split("<")[0] == tyname]
    return r[0] if r else None


def adt_const(v):
    """decoded JSON const -> interp Adt (through Interp.cv semantics)"""
    return Interp.cv(_CVI, v)


class _Dummy:
    constc = 0
    constmem = {}


_CVI = None


def rule_grammar(ctx):
    F = ctx.facts()
    global _CVI
    I = interp(F)
    _CVI = I
    ctx.rule("for every token kind the compiled prefix/infix parselet, its operator symbol and its precedence equal CodeParser/Data/{Prefix,Infix}Parselets.wl and Precedence.wl")
    prec = wl_precedence()
    pc = prec_consts(F)
    byname = {prec_key(k): v for k, v in prec.items()}
    ctx.floor("precedence names", len([k for k in pc if k in byname]), 150)
    # --- comparison semantics: term of greater() evaluated on every pair of named levels
    g = greater_table(F)
    if g is None:
        raise Vacuous("Precedence::greater not found")
    a, b = Sym("lhs"), Sym("rhs")
    wrapP = lambda s: Adt("core::option::Option", "Some", {0: Adt("precedence::Precedence", None, {0: s})})
    none = Adt("core::option::Option", "None", {})
    from termeval import ev, Unevaluable
    import numpy as np
    names = sorted(k for k in pc if k in byname)
    for ln, lv in (("name", wrapP(a)), ("none", none)):
        for rn, rv in (("name", wrapP(b)), ("none", none)):
            st = State()
            if ln == "name":
                st.cons[a] = ((1, 255),)
            if rn == "name":
                st.cons[b] = ((1, 255),)
            outs = I.run(g, [lv, rv], st)
            L = names if ln == "name" else [None]
            R = names if rn == "name" else [None]
            la = np.array([pc[x] if x else 0 for x in L]).repeat(len(R))
            ra = np.tile(np.array([pc[x] if x else 0 for x in R]), len(L))
            env = {a: la, b: ra}
            res = np.full(len(la), -1)
            dec = True
            for o in outs:
                m = np.ones(len(la), dtype=bool)
                for t, rs in o.state.cons.items():
                    try:
                        v = ev(t, env)
                    except Unevaluable:
                        dec = False
                        continue
                    ok = np.zeros(len(la), dtype=bool)
                    for lo, hi in rs:
                        ok |= (v >= max(lo, -(1 << 60))) & (v <= min(hi, 1 << 60))
                    m &= ok
                if o.kind != "return":
                    if m.any():
                        ctx.bad("greater:panic", "%s: precedence comparison can panic" % F.loc(g))
                    continue
                try:
                    v = ev(o.ret, env)
                except Unevaluable:
                    dec = False
                    continue
                v = v if isinstance(v, np.ndarray) else np.full(len(la), v)
                res[m] = v[m]
            if not dec:
                ctx.undec("precedence comparison not expressible")
                continue
            i = 0
            for x in L:
                for y in R:
                    lx = byname[x][0] if x else 0
                    ly, ry = (byname[y] if y else (0, False))
                    want = lx > ly or (lx == ly and not ry)
                    if bool(res[i]) != want:
                        ctx.bad("precedence:%s/%s" % (x, y), "%s: context %s (level %s, value %s) vs operator %s (level %s %s, value %s): binds-tighter is %s, Precedence.wl says %s" % (
                            F.loc(g), x, lx, pc.get(x), y, ly, "right" if ry else "non-right", pc.get(y), bool(res[i]), want))
                    else:
                        ctx.ok(n=1)
                    i += 1
    # --- tables
    n = 0
    for which, trait in (("PREFIX", "PrefixParselet"), ("INFIX", "InfixParselet")):
        T = parselet_table(F, which)
        W = wl_table(which.capitalize() + "Parselets")
        dflt = "PrefixUnhandledParselet" if which == "PREFIX" else "InfixImplicitTimesParselet"
        for k in kinds(F):
            n += 1
            ty, fields = T[k]
            w = W.get(k)
            where = "%s table entry for Token`%s" % (which.lower(), k.replace("_", "`"))
            wty = w[0].split("`")[1] if w else dflt
            if ty != wty:
                ctx.bad("%s:%s" % (which, k), "%s: %s, grammar data says %s" % (where, ty, wty))
                continue
            wargs = list(w[1:]) if w else []
            ok = True
            if ty in ("BinaryOperatorParselet", "InfixOperatorParselet", "PostfixOperatorParselet", "PrefixOperatorParselet"):
                p = [num(x) for x in fields if "Precedence" in x.get("adt", "")]
                o = [x for x in fields if x.get("adt", "").startswith(OPS)]
                wp = prec_key(wargs[0].split("`", 1)[1])
                if not p or not o:
                    ctx.undec("%s: fields not recognised" % where)
                    continue
                if p[0] != pc.get(wp):
                    ctx.bad("%s:%s:prec" % (which, k), "%s: precedence value %s, grammar data says %s (%s)" % (where, p[0], wp, pc.get(wp)))
                    ok = False
                s = op_symbol(F, I, o[0]["adt"].split("::")[-1], o[0]["v"])
                if s is None:
                    ctx.undec("%s: operator symbol not resolved" % where)
                elif not same_symbol(s, wargs[1]):
                    ctx.bad("%s:%s:op" % (which, k), "%s: builds %s, grammar data says %s" % (where, s, wargs[1]))
                    ok = False
                # the precedence it answers with is its own field
            elif ty == "IntegralParselet":
                ss = [op_symbol(F, I, x["adt"].split("::")[-1], x["v"]) for x in fields]
                if not all(same_symbol(x, y) for x, y in zip(ss, wargs)):
                    ctx.bad("%s:%s:op" % (which, k), "%s: builds %s, grammar data says %s" % (where, ss, wargs))
                    ok = False
            elif ty == "UnderParselet":
                base = {1: ("Blank", "PatternBlank"), 2: ("BlankSequence", "PatternBlankSequence"), 3: ("BlankNullSequence", "PatternBlankNullSequence")}[wargs[0]]
                ss = [op_symbol(F, I, x["adt"].split("::")[-1], x["v"]) for x in fields]
                if [(x or "").split("`")[-1] for x in ss] != list(base):
                    ctx.bad("%s:%s:op" % (which, k), "%s: builds %s, expected %s" % (where, ss, base))
                    ok = False
            elif ty in ("GroupParselet", "CallParselet"):
                ok = True  # decided by the bracket property
            if which == "INFIX" and ok:
                ok = infix_precedence(ctx, F, I, k, ty, T, pc, where, wargs)
            if which == "PREFIX" and ty == "PrefixOperatorParselet" and ok:
                fn = [x for x in F.fns if x.endswith("PrefixOperatorParselet::getPrecedence")]
                if fn:
                    st = State()
                    st.mem["self"] = I.cv({"adt": "parse::parselet::" + ty, "f": fields})
                    rs = {opt_prec(o.ret) if o.kind == "return" else "panic" for o in I.run(fn[0], [Ref("self")], st)}
                    if rs != {p[0]} and "?" not in rs:
                        ctx.bad("%s:%s:getprec" % (which, k), "%s: getPrecedence answers %s, not its own precedence %s" % (where, rs, p[0]))
                        ok = False
            if ok:
                ctx.ok("%s -> %s %s" % (where, ty, wargs))
    ctx.floor("token kinds x tables", n, 800)


def infix_precedence(ctx, F, I, k, ty, T, pc, where, wargs):
    if ty == "InfixImplicitTimesParselet":
        return True
    fn = impl_fn(F, "InfixParselet", ty, "getPrecedence")
    if fn is None:
        ctx.undec("%s: getPrecedence of %s not found" % (where, ty))
        return False
    st = State()
    st.mem["self"] = I.cv({"adt": "parse::parselet::" + ty, "f": T[k][1]})

    def pol(I_, s, name, decl, kk, args, t):
        if name in F.fns and F.types[F.fns[name]["locals"][0]]["k"] == "bool":
            s.n += 1
            x = Sym(("cond", name.split("::")[-1], s.n))
            s.cons[x] = ((0, 1),)
            return ("ret", x)
        return None
    J = Interp(F, pol)
    outs = J.run(fn, [Ref("self"), Sym("session")], st)
    rs = {opt_prec(o.ret) if o.kind == "return" else "panic" for o in outs}
    if "?" in rs:
        ctx.undec("%s: precedence answer not resolved" % where)
        return False
    if ty in LEAF_EXPECT:
        want = {pc.get(x) if x else None for x in LEAF_EXPECT[ty]}
        if ty == "ColonParselet":
            ok = rs == want
            for o in outs:
                c = [(s, r) for s, r in o.state.cons.items() if isinstance(s, Sym) and isinstance(s.id, tuple) and s.id[0] == "cond" and s.id[1] == "check_pattern_precedence"]
                if c and o.kind == "return":
                    tv = c[0][1][0][0]
                    if opt_prec(o.ret) != pc["FAKE_OPTIONALCOLON" if tv else "HIGHEST"]:
                        ok = False
        else:
            ok = rs == want
    elif ty in ("BinaryOperatorParselet", "InfixOperatorParselet", "PostfixOperatorParselet"):
        want = {num([x for x in T[k][1] if "Precedence" in x.get("adt", "")][0])}
        ok = rs == want
    else:
        ctx.undec("%s: no expected precedence for %s" % (where, ty))
        return False
    if not ok:
        ctx.bad("INFIX:%s:getprec" % k, "%s: %s answers precedence %s, expected %s" % (where, F.loc(fn), sorted(map(str, rs)), sorted(map(str, want))))
    return ok


def same_symbol(s, w):
    """System`Plus vs Plus; CodeParser`GroupParen vs CodeParser`GroupParen"""
    if s is None:
        return False
    return s == w or s == "System`" + w or s.split("`")[-1] == w or s.replace("`", "_") == w.replace("`", "_")


# ====================================================================== P08 names round-trip
def enum_arg(F, ti):
    t = F.types[ti]
    while t["k"] == "ref":
        t = F.types[t["t"]]
    a = t.get("adt")
    return a if a in F.adts and F.adts[a]["kind"] == "enum" else None


def name_pairs(F):
    M = {}
    for p, f in F.fns.items():
        m = p.rsplit("::", 1)[-1]
        if f["argc"] != 1:
            continue
        if m in ("to_symbol", "as_str"):
            a = enum_arg(F, f["locals"][1])
            if a:
                M.setdefault(a, {})[m] = p
        if m in ("try_from_symbol", "from_symbol", "from_str"):
            t = F.types[f["locals"][0]]
            if t.get("args"):
                a = enum_arg(F, t["args"][0])
                if a:
                    M.setdefault(a, {})[m] = p
    return M


def from_map(F, fn):
    """string -> variant, from the path conditions of the decoding function on a symbolic name"""
    I = interp(F, max_states=2000000)
    s = Sym("name")
    st = State()
    t = F.types[F.fns[fn]["locals"][1]]
    if t["k"] == "ref":
        arg = Ref(("*", "name-str"))
        st.mem[("*", "name-str")] = s
    else:
        st.mem[("*", "name-str")] = s
        arg = Adt(t.get("adt", "?"), None, {0: Ref(("*", "name-str"))})
    outs = I.run(fn, [arg], st)
    m = {}
    other = []
    for o in outs:
        pos = [t.args[1].s for t, r in o.state.cons.items() if isinstance(t, Term) and t.op == "Eq" and r == ((1, 1),)
               and isinstance(t.args[1], Str)]
        if o.kind != "return":
            other.append(o)
            continue
        v = o.ret
        if isinstance(v, Adt) and v.variant == "Some":
            x = v.fields[0]
            if isinstance(x, Adt) and x.variant and pos:
                for q in pos:
                    m.setdefault(q, x.variant)
            else:
                other.append(o)
        elif isinstance(v, Adt) and v.variant == "None":
            for q in pos:
                m.setdefault(q, None)
        else:
            other.append(o)
    return m, other


def to_map(F, fn, adt):
    """variant -> string"""
    I = interp(F)
    out = {}
    for v in F.adts[adt]["variants"]:
        if v["fields"]:
            continue
        st = State()
        st.mem["e"] = Adt(adt, v["name"], {})
        arg = Ref("e") if F.types[F.fns[fn]["locals"][1]]["k"] == "ref" else st.mem["e"]
        r = [o for o in I.run(fn, [arg], st)]
        if len(r) == 1 and r[0].kind == "return":
            out[v["name"]] = sym_string(I, r[0].state, r[0].ret)
        else:
            out[v["name"]] = None
    return out


ALIAS = {("tokenize::token_kind::TokenKind", "ToplevelNewline"): "InternalNewline",
         ("tokenize::token_kind::TokenKind", "InternalNewline"): "ToplevelNewline"}


def rule_names(ctx):
    F = ctx.facts()
    ctx.rule("for every enum with both a name-of and a named decoder, decoding the name of each variant yields that variant, and names are distinct")
    n = 0
    pairs = 0
    for adt, d in sorted(name_pairs(F).items()):
        for to, fr in (("to_symbol", "try_from_symbol"), ("to_symbol", "from_symbol"), ("as_str", "from_str")):
            if to not in d or fr not in d:
                continue
            pairs += 1
            tm = to_map(F, d[to], adt)
            fm, other = from_map(F, d[fr])
            if other:
                ctx.undec("%s has %d exits that are not a plain name comparison" % (d[fr], len(other)))
            seen = {}
            for v, s in tm.items():
                n += 1
                if s is None:
                    ctx.undec("%s: name of %s not resolved" % (d[to], v))
                    continue
                if s in seen and ALIAS.get((adt, v)) != seen[s]:
                    ctx.bad("dup:%s:%s" % (adt, s), "%s: variants %s and %s share the name %s" % (F.loc(d[to]), seen[s], v, s))
                seen.setdefault(s, v)
                got = fm.get(s)
                if got == v or (got is not None and ALIAS.get((adt, v)) == got):
                    ctx.ok("%s::%s <-> %s" % (adt.split("::")[-1], v, s))
                elif other and got is None:
                    ctx.undec("%s: decoding %s not resolved" % (d[fr], s))
                else:
                    ctx.bad("roundtrip:%s:%s" % (adt, v), "%s writes %s::%s as \"%s\" but %s reads that as %s" % (F.loc(d[to]), adt.split("::")[-1], v, s, F.loc(d[fr]), got))
            for s, v in fm.items():
                if v is not None and s not in seen:
                    ctx.bad("extra:%s:%s" % (adt, s), "%s reads \"%s\" as %s, which is written as \"%s\"" % (F.loc(d[fr]), s, v, tm.get(v)))
    ctx.floor("writer/reader pairs", pairs, 10)
    ctx.floor("names round-tripped", n, 700)


# ====================================================================== P05 token classification vs dispatch
PREDS = ("isTrivia", "isTriviaButNotToplevelNewline", "isPossibleBeginning", "isCloser", "isError", "isUnterminated", "isEmpty")


def predicates(ctx, F):
    I = interp(F)
    out = {}
    for p in PREDS:
        fn = F.one("TokenKind::" + p)
        if fn is None:
            raise Vacuous("TokenKind::%s not found" % p)
        for k in kinds(F):
            st = State()
            st.mem["k"] = kind(F, k)
            arg = Ref("k") if F.types[F.fns[fn]["locals"][1]]["k"] == "ref" else st.mem["k"]
            r = {o.ret if o.kind == "return" else "panic" for o in I.run(fn, [arg], st)}
            if len(r) != 1 or not isinstance(next(iter(r)), int):
                ctx.undec("%s(%s) not resolved: %s" % (p, k, r))
                v = None
            else:
                v = bool(r.pop())
            out.setdefault(k, {})[p] = v
    return out


TRIVIA = {"Whitespace", "Comment", "InternalNewline", "ToplevelNewline"}
EMPTY = {"EndOfFile", "Fake_ImplicitTimes", "Fake_ImplicitNull", "Fake_ImplicitOne", "Fake_ImplicitAll", "Error_Aborted",
         "Error_ExpectedOperand", "Error_ExpectedTag", "Error_ExpectedFile", "Error_PrefixImplicitNull", "Error_InfixImplicitNull"}
NOT_BEGIN = {"PrefixUnhandledParselet", "PrefixErrorParselet", "PrefixCloserParselet", "PrefixEndOfFileParselet",
             "PrefixCommaParselet", "PrefixUnsupportedTokenParselet"}
# synthesised by the parser after dispatch, never looked up
SYNTH = {"Error_PrefixImplicitNull", "Error_InfixImplicitNull"}


def rule_classify(ctx):
    F = ctx.facts()
    ctx.rule("for every token kind: the class bits (error, closer, trivia, empty, unterminated, possible-beginning) agree with its kind and with the parselet it dispatches to, so no dispatch assertion can fail")
    P, X = parselet_table(F, "PREFIX"), parselet_table(F, "INFIX")
    pr = predicates(ctx, F)
    where = F.loc(F.one("TokenKind::isError"))

    def expect(k, what, got, want):
        if got is None:
            return
        if got != want:
            ctx.bad("class:%s:%s" % (k, what), "%s: Token`%s: %s is %s, expected %s" % (where, k.replace("_", "`"), what, got, want))
        else:
            ctx.ok("Token`%s %s=%s" % (k.replace("_", "`"), what, got) if got else None)
    discr = {}
    for v in F.adts[TK]["variants"]:
        discr.setdefault(v["discr"], []).append(v["name"])
    for d, ns in discr.items():
        if len(ns) > 1:
            ctx.bad("class:dup:%s" % ns, "token kinds %s share one representation" % ns)
    closer_fn = F.one("TokenToCloser")
    I = interp(F)
    idf = F.one("TokenKind::id")
    for i, k in enumerate(kinds(F)):
        p, x = P[k][0], X[k][0]
        c = pr[k]
        expect(k, "isError", c["isError"], k.startswith("Error_"))
        expect(k, "isUnterminated", c["isUnterminated"], k.startswith("Error_Unterminated"))
        expect(k, "isEmpty", c["isEmpty"], k in EMPTY)
        if not k.startswith("Buffer"):   # reserved kinds, never produced
            expect(k, "isTrivia", c["isTrivia"], k in TRIVIA)
            expect(k, "isTriviaButNotToplevelNewline", c["isTriviaButNotToplevelNewline"], k in TRIVIA_NOT_TOP)
        begins = p not in NOT_BEGIN and not (p == "GroupParselet" and x == "CallParselet")
        expect(k, "isPossibleBeginning", c["isPossibleBeginning"], begins)
        expect(k, "isCloser", c["isCloser"], p == "PrefixCloserParselet")
        if p == "PrefixErrorParselet" and not c["isError"] and not c["isTrivia"] and k != "Unknown":
            ctx.bad("class:%s:errp" % k, "Token`%s dispatches to the error parselet but is not an error token" % k)
        if c["isError"] and p != "PrefixErrorParselet" and k not in SYNTH:
            ctx.bad("class:%s:err" % k, "error token Token`%s is dispatched to %s instead of the error parselet" % (k, p))
        if (c["isError"] and k not in SYNTH or c["isCloser"] or k == "EndOfFile") and x != "InfixAssertFalseParselet":
            ctx.bad("class:%s:infix" % k, "Token`%s must end an expression, but its infix parselet is %s" % (k, x))
        else:
            ctx.ok()
        # dispatch index: the parselet looked up for a kind is the entry built for that kind
        if idf:
            r = {o.ret for o in I.run(idf, [kind(F, k)], State()) if o.kind == "return"}
            if r != {i} and all(isinstance(q, int) for q in r):
                ctx.bad("class:%s:id" % k, "Token`%s has dispatch id %s but table position %d" % (k, r, i))
            else:
                ctx.ok()
    ctx.floor("token kinds", len(pr), 400)


TRIVIA_NOT_TOP = TRIVIA - {"ToplevelNewline"}

# ====================================================================== P06 brackets
PAIRS = {"OpenParen": "CloseParen", "OpenSquare": "CloseSquare", "OpenCurly": "CloseCurly", "LessBar": "BarGreater",
         "ColonColonOpenSquare": "CloseSquare", "LongName_OpenCurlyQuote": "LongName_CloseCurlyQuote",
         "LongName_OpenCurlyDoubleQuote": "LongName_CloseCurlyDoubleQuote",
         **{"LongName_Left" + n: "LongName_Right" + n for n in ("AngleBracket", "Association", "BracketingBar", "Ceiling",
                                                               "DoubleBracket", "DoubleBracketingBar", "Floor")}}
CALLS = {"OpenSquare", "LongName_LeftDoubleBracket", "ColonColonOpenSquare"}


def rule_brackets(ctx):
    F = ctx.facts()
    ctx.rule("every opener token is parsed as the group of Data/PrefixParselets.wl and closed only by its matching closer; every closer token maps to exactly its own closer; call openers give the call operator of their group")
    I = interp(F)
    P, X = parselet_table(F, "PREFIX"), parselet_table(F, "INFIX")
    W = {"PREFIX": wl_table("PrefixParselets"), "INFIX": wl_table("InfixParselets")}
    t2c = F.one("TokenToCloser")
    o2c = F.one("GroupOpenerToCloser")
    if not t2c or not o2c:
        raise Vacuous("closer functions not found")
    clos = {}
    n = 0
    for k in kinds(F):
        r = [o for o in I.run(t2c, [kind(F, k)], State())]
        v = r[0].ret.variant if len(r) == 1 and r[0].kind == "return" and isinstance(r[0].ret, Adt) else None
        if v is None:
            ctx.undec("TokenToCloser(%s) not resolved" % k)
            continue
        want = k if k in PAIRS.values() else "AssertFalse"
        if v != want:
            ctx.bad("closer:%s" % k, "%s: token %s counts as closer %s, expected %s" % (F.loc(t2c), k, v, want))
        else:
            ctx.ok("TokenToCloser(%s)=%s" % (k, v) if v != "AssertFalse" else None)
        r = [o for o in I.run(o2c, [kind(F, k)], State())]
        vs = {o.ret.variant if o.kind == "return" and isinstance(o.ret, Adt) else o.kind for o in r}
        want = {PAIRS[k]} if k in PAIRS else {"panic"}
        if vs != want:
            ctx.bad("opener:%s" % k, "%s: opener %s is closed by %s, expected %s" % (F.loc(o2c), k, vs, want))
        else:
            ctx.ok()
    for which, T in (("PREFIX", P), ("INFIX", X)):
        for k, (ty, f) in T.items():
            if ty == "CallParselet":
                g = f[0]
                f = g.get("f", [])
            elif ty != "GroupParselet":
                if which == "PREFIX" and k in PAIRS:
                    ctx.bad("group:%s" % k, "opener %s has no group parselet (%s)" % (k, ty))
                continue
            n += 1
            op = [x for x in f if x.get("adt", "").endswith("GroupOperator")]
            cl = [x for x in f if x.get("adt", "").endswith("Closer")]
            w = W[which].get(k)
            if w is None or k not in PAIRS:
                ctx.bad("group:%s" % k, "%s is parsed as a bracket but is not an opener" % k)
                continue
            g = w[1] if ty == "CallParselet" else w
            s = op_symbol(F, I, "GroupOperator", op[0]["v"]) if op else None
            if not same_symbol(s, g[2]):
                ctx.bad("group:%s:op" % k, "%s bracket %s builds group %s, grammar data says %s" % (which.lower(), k, s, g[2]))
            else:
                ctx.ok("%s %s -> %s closed by %s" % (which, k, s, cl[0]["v"] if cl else None))
            if cl and cl[0]["v"] != PAIRS[k]:
                ctx.bad("group:%s:closer" % k, "%s bracket %s waits for closer %s, expected %s" % (which.lower(), k, cl[0]["v"], PAIRS[k]))
            elif cl:
                ctx.ok()
            if g[1].split("`", 1)[1].replace("`", "_") != k:
                ctx.bad("group:%s:data" % k, "grammar data entry for %s names opener %s" % (k, g[1]))
            if ty == "CallParselet" and op:
                fn = F.one("GroupOperator::try_to_call_operator")
                if fn:
                    r = I.run(fn, [Adt(OPS + "GroupOperator", op[0]["v"], {})], State())
                    vs = {(o.ret.variant, o.ret.fields[0].variant if o.ret.variant == "Some" and isinstance(o.ret.fields[0], Adt) else None) if o.kind == "return" and isinstance(o.ret, Adt) else o.kind for o in r}
                    cs = None
                    if len(vs) == 1 and isinstance(next(iter(vs)), tuple) and next(iter(vs))[1]:
                        cs = op_symbol(F, I, "CallOperator", next(iter(vs))[1])
                    if cs != s:
                        ctx.bad("call:%s" % k, "%s: call bracket %s has group %s but call operator %s" % (F.loc(fn), k, s, cs or vs))
                    else:
                        ctx.ok("call %s -> %s" % (k, cs))
        calls = {k for k in T if T[k][0] == "CallParselet"}
        if which == "INFIX" and calls != CALLS:
            ctx.bad("calls", "infix call brackets are %s, expected %s" % (sorted(calls), sorted(CALLS)))
    ctx.floor("bracket table entries", n, 17)


# ====================================================================== P07 long names
def rule_longnames(ctx):
    F = ctx.facts()
    ctx.rule("every long-name table (name->code point, code point->name, raw, punctuation, whitespace, newline, uninterpretable, letterlike, ASCII replacements, operator token) equals CodeParser/Data/LongNames.wl; searched tables are strictly sorted")
    L = wldata.load(os.path.join(DATA, "LongNames.wl"))[1:]
    data = {}
    for r in L:
        assoc = {x[1][1]: x[2] for x in r[2][3][1:] if isinstance(x, tuple) and x[0] == "Rule"} if len(r[2]) > 3 else {}
        data[r[1][1]] = (r[2][1], r[2][2], assoc)
    ctx.floor("long names in the data file", len(data), 1000)
    META = {"RawDoubleQuote": "StringMeta_DoubleQuote", "RawBackslash": "StringMeta_Backslash"}

    def cpv(x):
        x = val(x)
        if isinstance(x, int):
            return x
        return x["f"][0] if x["v"] == "Char" else x["v"]

    def cpkey(x):
        x = val(x)
        if isinstance(x, int):
            return (1, x)
        return (1, x["f"][0]) if x["v"] == "Char" else (0, -variant_neg(F, x["v"]))

    def table(name):
        return val(F.consts[const_named(F, name)]["v"])["arr"]

    def sorted_strict(name, keys):
        bad = [i for i in range(1, len(keys)) if not keys[i - 1] < keys[i]]
        for i in bad[:3]:
            ctx.bad("sorted:%s:%s" % (name, keys[i]), "table %s is binary-searched but entry %d (%s) is not above entry %d (%s)" % (name, i, keys[i], i - 1, keys[i - 1]))
        if not bad:
            ctx.ok("%s strictly sorted, %d entries" % (name, len(keys)))
    skip_sorted = lambda I, st, name, decl, k, args, t: ("ret", 1) if "is_sorted" in name else None
    want = {}
    for n, (cat, cp, _) in data.items():
        want[n] = META.get(n, cp)
    inv = {}
    for n, c in want.items():
        inv.setdefault(c, set()).add(n)

    def lookup(fn, arg, st):
        J = interp(F, policy=skip_sorted)
        r = J.run(fn, [arg], st)
        if len(r) != 1:
            return "?"
        if r[0].kind != "return":
            return "panic"
        v = r[0].ret
        if isinstance(v, int):
            return v
        if not isinstance(v, Adt) or v.variant not in ("Some", "None"):
            return "?"
        if v.variant == "None":
            return None
        x = v.fields[0]
        if isinstance(x, Ref):
            x = J.read(r[0].state, (x.obj, x.path))
        if isinstance(x, Str):
            return x.s
        if isinstance(x, Adt) and x.variant:
            return x.fields[0] if x.variant == "Char" else x.variant
        return "?"

    def judge(what, key, got, good, text):
        if got == "?":
            ctx.undec("%s: lookup of %s not resolved" % (what, key))
        elif good(got):
            ctx.ok("%s(%s) = %s" % (what, key, got) if len(ctx.samples) < 10 else None)
        else:
            ctx.bad("%s:%s" % (what, key), text % (got,))
    fn1, fn2, fn3 = F.one("longname_to_codepoint"), F.one("codepoint_to_longname"), F.one("isRaw")
    for f, nm in ((fn1, "longname_to_codepoint"), (fn2, "codepoint_to_longname"), (fn3, "isRaw")):
        if f is None:
            raise Vacuous(nm + " not found")
    for n in sorted(want):
        st = State()
        st.mem["n"] = Str(n)
        judge("name", n, lookup(fn1, Ref("n"), st), lambda g: g == want[n], F.loc(fn1) + ": \\[" + n + "] is looked up as %s, LongNames.wl says " + str(want[n]))
        st = State()
        st.mem["n"] = Str(n)
        israw = data[n][0] == "RawCharacter"
        judge("raw", n, lookup(fn3, Ref("n"), st), lambda g: g == int(israw), F.loc(fn3) + ": isRaw(" + n + ") is %s, LongNames.wl says " + str(israw))
    CP = "read::code_point::CodePoint"
    for c in sorted(inv, key=str):
        arg = Adt(CP, "Char", {0: c}) if isinstance(c, int) else Adt(CP, c, {})
        judge("cp", c, lookup(fn2, arg, State()), lambda g: g in inv[c], F.loc(fn2) + ": code point " + str(c) + " is named %s, LongNames.wl says " + str(sorted(inv[c])))
    # nothing beyond the data file
    for tab, known, col in (("LONGNAME_TO_CODEPOINT_MAP", set(want), lambda x: x["tup"][0]["str"]),
                            ("CODEPOINT_TO_LONGNAME_MAP", set(want), lambda x: x["tup"][1]["str"]),
                            ("RAW_SET", set(want), lambda x: x["str"])):
        if [k for k in F.consts if k.endswith("::" + tab)]:
            for x in table(tab):
                if col(x) not in known:
                    ctx.bad("extra:%s:%s" % (tab, col(x)), "%s has an entry for %s, which is not in LongNames.wl" % (tab, col(x)))
                else:
                    ctx.ok()
        else:
            ctx.undec("table %s not found" % tab)
    od = order_keys(F)
    # predicates over characters: value sets from the code itself
    cats = {"isMBPunctuation": ("MB_PUNCTUATION_CODE_POINTS", lambda d: d[0] == "PunctuationCharacter"),
            "isMBWhitespace": ("MB_WHITESPACE_CODE_POINTS", lambda d: d[0] == "WhitespaceCharacter"),
            "isMBNewline": ("MB_NEWLINE_CODE_POINTS", lambda d: d[0] == "NewlineCharacter"),
            "isMBUninterpretable": ("MB_UNINTERPRETABLE_CODE_POINTS", lambda d: d[0] == "UninterpretableCharacter"),
            "isMBNotStrangeLetterlike": ("MB_NOT_STRAGE_LETTERLIKE_CODE_POINTS", lambda d: d[0] == "LetterlikeCharacter" and "NotStrangeLetterlike" in strs(d[2].get("Extra")))}
    from interp import r_norm
    for p, (tab, f) in cats.items():
        fn = F.one(p) or F.one("long_names::" + p)
        if fn is None:
            raise Vacuous("%s not found" % p)
        wantset = {d[1] for d in data.values() if f(d)}
        I = interp(F, policy=lambda I, st, name, decl, k, args, t: ("ret", 1) if "is_sorted" in name else None)
        c = Sym("c")
        st = State()
        st.cons[c] = ((0, 0xD7FF), (0xE000, 0x10FFFF))
        yes = []
        for o in I.run(fn, [Adt("read::code_point::CodePoint", "Char", {0: c})], st):
            if o.kind == "return" and o.ret == 1:
                yes += list(o.state.cons[c])
            elif o.kind == "return" and o.ret != 0:
                ctx.undec("%s: result not resolved" % fn)
        got = {x for lo, hi in r_norm(yes) for x in range(lo, hi + 1)} if sum(h - l for l, h in yes) < 100000 else set()
        cmp_set(ctx, p, got, wantset)
    fn = F.one("LongNameCodePointToOperator")
    if fn:
        c = Sym("c")
        st = State()
        st.cons[c] = ((0, 0xD7FF), (0xE000, 0x10FFFF))
        I = interp(F)
        seen = set()
        for o in I.run(fn, [c], st):
            if o.kind != "return":
                continue
            for lo, hi in o.state.cons[c]:
                for x in range(lo, hi + 1):
                    seen.add(x)
                    names = {n for n, d in data.items() if d[1] == x and d[0] == "PunctuationCharacter"}
                    if not any(o.ret.variant == "LongName_" + n for n in names):
                        ctx.bad("op:%X" % x, "%s: code point U+%04X becomes Token`%s, LongNames.wl names it %s" % (F.loc(fn), x, o.ret.variant, names))
                    else:
                        ctx.ok()
        miss = {d[1] for d in data.values() if d[0] == "PunctuationCharacter"} - seen
        for x in sorted(miss):
            ctx.bad("op:%X" % x, "%s: punctuation U+%04X has no operator token" % (F.loc(fn), x))
    at = table("ASCII_REPLACEMENTS_MAP")
    sorted_strict("ASCII_REPLACEMENTS_MAP", [x["tup"][0] for x in at])
    got = {x["tup"][0]: tuple(s["str"] for s in val(x["tup"][1])["arr"]) for x in at}
    wantr = {}
    for n, d in data.items():
        if "ASCIIReplacements" in d[2]:
            wantr[d[1]] = tuple(unesc(s) for s in strs(d[2]["ASCIIReplacements"]))
    for c in sorted(set(got) | set(wantr)):
        if got.get(c) != wantr.get(c):
            ctx.bad("ascii:%X" % c, "ASCII replacements of U+%04X are %s, LongNames.wl says %s" % (c, got.get(c), wantr.get(c)))
        else:
            ctx.ok()


def unesc(s):
    return s.replace("\\\\", "\0").replace('\\"', '"').replace("\\n", "\n").replace("\\t", "\t").replace("\0", "\\")


def strs(v):
    return [x[1] for x in v[1:]] if isinstance(v, tuple) and v[0] == "List" else []


def cmp_set(ctx, what, got, want):
    for x in sorted(got - want, key=str)[:20]:
        ctx.bad("%s:+%s" % (what, x), "%s accepts %s, which LongNames.wl does not" % (what, hex(x) if isinstance(x, int) else x))
    for x in sorted(want - got, key=str)[:20]:
        ctx.bad("%s:-%s" % (what, x), "%s rejects %s, which LongNames.wl lists" % (what, hex(x) if isinstance(x, int) else x))
    if got == want:
        ctx.ok("%s: exactly the %d listed members" % (what, len(want)), n=len(want))


def variant_neg(F, v):
    names = [x["name"] for x in F.adts["read::code_point::CodePoint"]["variants"]]
    return names.index(v)


def order_keys(F):
    """sort key of a CodePoint as its Ord implementation compares (special values below characters)"""
    I = interp(F)
    fn = [k for k in F.fns if k.endswith("CodePoint::as_i32")]
    cache = {}

    def key(x):
        x = val(x)
        if isinstance(x, int):
            return (1, x)
        if x["v"] == "Char":
            return (1, x["f"][0])
        if x["v"] not in cache:
            v = None
            if fn:
                st = State()
                st.mem["c"] = Adt("read::code_point::CodePoint", x["v"], {})
                arg = Ref("c") if F.types[F.fns[fn[0]]["locals"][1]]["k"] == "ref" else st.mem["c"]
                r = [o.ret for o in I.run(fn[0], [arg], st) if o.kind == "return"]
                v = r[0] if len(r) == 1 and isinstance(r[0], int) else None
            cache[x["v"]] = v if v is not None else -variant_neg(F, x["v"])
        return (0, cache[x["v"]])
    return key
