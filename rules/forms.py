"""What each form of the language is turned into (P24).

The parselets are interpreted as in parser.py; the abstract builder also keeps the shape of every node: the builder
method, the operator, the leaves (token kinds) and the operands (with the precedence in force). Every shape a parselet
can leave is compared with the forms the language defines for it."""
from interp import *
from rules.common import *
from rules.parser import (Model, parselets, kinds_of, discs, restrict, Bad, SESSION, KIND, OPT, P0, panics_only)
from rules.tables import parselet_table, kinds as kind_names, prec_consts, PAIRS

PREC = "precedence::Precedence"
OPS = "parse::operators::"


class Shape:
    """resolver + matcher for one path"""

    def __init__(self, F, I, st, pc, spec):
        self.F, self.I, self.st, self.pc, self.spec = F, I, st, pc, spec
        self.under = {}

    def at(self, p):
        """kinds the token at a position may have"""
        if p not in self.under:
            r = None
            for s in list(self.st.cons):
                if isinstance(s, Sym) and isinstance(s.id, tuple) and s.id[0] == "disc" and isinstance(s.id[1], tuple) and s.id[1][0] == "kind" \
                        and isinstance(s.id[1][1], tuple) and s.id[1][1][0] == p:
                    k = kinds_of(self.F, self.I, self.st, Sym(s.id[1]))
                    r = k if r is None else (r & k or r | k)
            self.under[p] = r if r is not None else set(discs(self.F))
        return self.under[p]

    def ks(self, v):
        return kinds_of(self.F, self.I, self.st, v)

    def flag(self, what, p):
        r = self.st.cons.get(Sym((what, p)))
        return r[0][0] if r and len(r) == 1 and r[0][0] == r[0][1] else None

    # ---- pieces
    def prec(self, want, v):
        if want in ("own", "outer"):
            return v == Sym(want + "_prec")
        if want == "none":
            return v == Adt(OPT, "None", {})
        if want == "self":
            return isinstance(v, Adt) and v.variant == "Some" and of_self(v.fields.get(0))
        n = self.pc.get(want)
        return isinstance(v, Adt) and v.variant == "Some" and isinstance(v.fields[0], Adt) and v.fields[0].fields.get(0) == n

    def match(self, pat, sh):
        k = pat[0]
        if k == "or":
            return any(self.match(p, sh) for p in pat[1:])
        if k == "lhs":
            return sh[0] == "LHS"
        if k == "climb":
            return sh[0] == "climb" and self.prec(pat[1], sh[1]) and self.match(pat[2], sh[2])
        if k in ("leaf", "syntax"):
            # ("leaf", kinds[, kinds of the token it stands at])
            if sh[0] != k or not self.ks(sh[1]) <= pat[1]:
                return False
            return len(pat) < 3 or self.at(sh[2]) <= pat[2]
        if k == "operand":
            return sh[0] == "operand" and self.prec(pat[1], sh[1]) and (len(pat) < 3 or self.ks(sh[2]) <= pat[2])
        if k == "compound":
            return sh[0] == pat[1] and [getattr(o, "variant", None) for o in sh[1]] == pat[2] and len(sh) - 2 == len(pat[3]) and \
                all(self.ks(v) <= w for v, w in zip(sh[2:], pat[3]))
        if k == "node":
            if sh[0] != pat[1] or not self.op(pat[2], sh[1]):
                return False
            return self.seq(list(pat[3:]), list(sh[2:]))
        raise AssertionError(k)

    def seq(self, ps, xs):
        if not ps:
            return not xs
        p = ps[0]
        if p[0] == "many":
            n = len(p) - 1
            if self.seq(ps[1:], xs):
                return True
            return len(xs) >= n and all(self.match(a, b) for a, b in zip(p[1:], xs)) and self.seq(ps, xs[n:])
        return bool(xs) and self.match(p, xs[0]) and self.seq(ps[1:], xs[1:])

    def op(self, want, v):
        if want is None:
            return True
        if want == "self":
            return of_self(v)
        return isinstance(v, Adt) and v.variant == want

    def show(self, sh):
        if isinstance(sh, tuple):
            if sh and sh[0] in ("leaf", "syntax"):
                sh = sh[:2]
            return "(" + " ".join(self.show(x) for x in sh) + ")"
        if isinstance(sh, Adt) and sh.name == KIND or isinstance(sh, Sym) and isinstance(sh.id, tuple) and sh.id[0] == "kind":
            ks = self.ks(sh)
            return "|".join(sorted(ks)) if len(ks) <= 4 else "any of %d kinds" % len(ks)
        if isinstance(sh, Adt) and sh.variant:
            inv = {v: k for k, v in self.pc.items()}
            if sh.name == OPT:
                x = sh.fields.get(0)
                return "no precedence" if sh.variant == "None" else inv.get(getattr(x, "fields", {}).get(0), str(x)[:40])
            return sh.variant
        if isinstance(sh, Sym) and isinstance(sh.id, tuple):
            return ""
        return str(sh)


def of_self(v):
    """a field of the parselet (its table entry is checked by P04)"""
    if isinstance(v, Adt) and v.base is not None:
        v = v.base
    if not isinstance(v, Sym):
        return False
    x = v.id
    while isinstance(x, tuple) and len(x) > 1:
        x = x[1]
    return x == "self"


def forms(F, M, pc):
    """parselet -> list of (token kinds, forms); kinds None: all"""
    K = set(discs(F))

    def tab(n):
        f = [x for x in F.fns if x.endswith("TokenKind::" + n)]
        return M.kind_table(f[0]).get(("return", 1), set()) if f else set()
    begin = tab("isPossibleBeginning")
    closers = tab("isCloser")
    S = lambda *a: ("syntax", set(a))
    L = lambda *a: ("leaf", set(a))
    at = lambda k, under: ("leaf", {k}, under)
    O = lambda p, *ks: ("operand", p) + ks
    N = lambda m, op, *ch: ("node", m, op) + ch
    C = lambda x: ("climb", "outer", x)
    lhs = ("lhs",)
    DD = {"LongName_DifferentialD", "LongName_CapitalDifferentialD"}
    own = O("own")
    UN = {"Under", "UnderUnder", "UnderUnderUnder"}
    SYM = {"Symbol", "Error_ExpectedLetterlike"}
    nb = K - begin | {"SemiSemi"}
    beg = begin - {"SemiSemi"}
    pre = {}
    inf = {}

    pre["IntegralParselet"] = [
        C(N("reduce_prefix", "self", ("syntax", K), O("CLASS_INTEGRATIONOPERATORS", K - DD))),
        C(N("reduce_prefix_binary", "self", ("syntax", K), O("CLASS_INTEGRATIONOPERATORS", K - DD), O("CLASS_INTEGRATIONOPERATORS", DD))),
        C(N("reduce_prefix_binary", "self", ("syntax", K), at("Fake_ImplicitOne", DD), O("CLASS_INTEGRATIONOPERATORS", DD)))]

    def spans(first, p):
        return [C(N("reduce_ternary", "Span", first, S("SemiSemi"), at("Fake_ImplicitAll", {"SemiSemi"}), S("SemiSemi"), O(p, beg))),
                C(N("reduce_binary", "Span", first, S("SemiSemi"), at("Fake_ImplicitAll", nb))),
                C(N("reduce_ternary", "Span", first, S("SemiSemi"), O(p, beg), S("SemiSemi"), O(p, beg))),
                C(N("reduce_binary", "Span", first, S("SemiSemi"), O(p, beg)))]
    pre["SemiSemiParselet"] = spans(at("Fake_ImplicitOne", {"SemiSemi"}), "SEMISEMI")
    inf["SemiSemiParselet"] = spans(lhs, "own")
    pre["UnderParselet"] = [C(("compound", "push_compound_blank", [], [UN, SYM])), C(("compound", "push_compound_blank", [], [UN]))]
    pre["UnderDotParselet"] = [C(L("UnderDot"))]
    pre["LeafParselet"] = [C(("leaf", K))]
    pre["PrefixErrorParselet"] = [("leaf", tab("isError"))]
    pre["PrefixToplevelCloserParselet"] = [("leaf", {"Error_UnexpectedCloser"})]
    pre["PrefixUnsupportedTokenParselet"] = [("leaf", {"Error_UnsupportedToken"})]
    pats = []
    for u, n in (("Under", ""), ("UnderUnder", "Sequence"), ("UnderUnderUnder", "NullSequence")):
        pats.append(C(("compound", "push_compound_pattern_blank", ["CodeParser_PatternBlank" + n], [{"Symbol"}, {u}])))
        pats.append(C(("compound", "push_compound_pattern_blank", ["CodeParser_PatternBlank" + n, "Blank" + n], [{"Symbol"}, {u}, SYM])))
    pre["SymbolParselet"] = pats + [C(("compound", "push_compound_pattern_optional", ["CodeParser_PatternOptionalDefault"], [{"Symbol"}, {"UnderDot"}])),
                                    C(("leaf", {"Symbol"}))]
    pre["PrefixOperatorParselet"] = [C(N("reduce_prefix", "self", ("syntax", K), O("self")))]
    pre["LessLessParselet"] = [C(N("reduce_prefix_get", "Get", S("LessLess"), ("leaf", K)))]
    pre["HashParselet"] = [C(("leaf", {"Hash"})), C(("compound", "push_compound_slot", ["Slot"], [{"Hash"}, {"Integer", "String"}]))]
    pre["HashHashParselet"] = [C(("leaf", {"HashHash"})), C(("compound", "push_compound_slot", ["SlotSequence"], [{"HashHash"}, {"Integer"}]))]
    pre["PercentParselet"] = [C(("leaf", {"Percent"})), C(("compound", "push_compound_out", ["Out"], [{"Percent"}, {"Integer"}]))]
    inf["BinaryOperatorParselet"] = [C(N("reduce_binary", "self", lhs, ("syntax", K), own))]
    inf["InfixOperatorParselet"] = [C(N("reduce_infix", "self", lhs, ("syntax", K), own, ("many", ("syntax", K), own)))]
    inf["TimesParselet"] = [C(N("reduce_infix", "Times", lhs, ("syntax", K), own, ("many", ("syntax", K), own)))]
    inf["PostfixOperatorParselet"] = [C(N("reduce_postfix", "self", lhs, ("syntax", K)))]
    inf["TildeParselet"] = [C(N("reduce_ternary", "CodeParser_TernaryTilde", lhs, S("Tilde"), own, S("Tilde"), own)),
                            C(N("reduce_syntax_error", "ExpectedTilde", lhs, S("Tilde"), own))]
    inf["ColonParselet"] = {"Pattern": C(N("reduce_binary", "Pattern", lhs, S("Colon"), O("FAKE_PATTERNCOLON"))),
                            "Optional": C(N("reduce_binary", "Optional", lhs, S("Colon"), O("FAKE_OPTIONALCOLON"))),
                            "Error": C(N("reduce_syntax_error", "ExpectedSymbol", lhs, S("Colon"), O("FAKE_PATTERNCOLON")))}
    inf["SlashColonParselet"] = [C(N("reduce_ternary", "TagSetDelayed", lhs, S("SlashColon"), own, S("ColonEqual"), O("COLONEQUAL"))),
                                 C(N("reduce_ternary", "TagSet", lhs, S("SlashColon"), own, S("Equal"), O("EQUAL", K - {"Dot"}))),
                                 C(N("reduce_ternary_tag_unset", "TagUnset", lhs, S("SlashColon"), own, S("Equal"), S("Dot"))),
                                 C(N("reduce_syntax_error", "ExpectedSet", lhs, S("SlashColon"), own))]
    inf["EqualParselet"] = [C(N("reduce_binary", "Set", lhs, S("Equal"), O("own", K - {"Dot"}))),
                            C(N("reduce_binary_unset", "Unset", lhs, S("Equal"), S("Dot")))]
    inf["ColonEqualParselet"] = [C(N("reduce_binary", "SetDelayed", lhs, S("ColonEqual"), own))]
    CM = {"Comma", "LongName_InvisibleComma"}
    arg = ("or", at("Error_InfixImplicitNull", CM), O("own", K - CM))
    inf["CommaParselet"] = [N("reduce_infix", "CodeParser_Comma", lhs, ("syntax", CM), arg, ("many", ("syntax", CM), arg))]
    nobeg = K - begin | {"Semi"}
    arg2 = ("or", at("Fake_ImplicitNull", nobeg), O("own", begin - {"Semi"}))
    inf["SemiParselet"] = [C(N("reduce_infix", "CompoundExpression", lhs, S("Semi"), arg2, ("many", S("Semi"), arg2)))]
    inf["ColonColonParselet"] = [C(N("reduce_infix", "MessageName", lhs, S("ColonColon"), ("leaf", K), ("many", S("ColonColon"), ("leaf", K))))]
    inf["GreaterGreaterParselet"] = [C(N("reduce_binary", "Put", lhs, S("GreaterGreater"), ("leaf", K)))]
    inf["GreaterGreaterGreaterParselet"] = [C(N("reduce_binary", "PutAppend", lhs, S("GreaterGreaterGreater"), ("leaf", K)))]
    return pre, inf, dict(begin=begin, closers=closers, K=K, C=C, N=N, S=S, O=O, at=at, lhs=lhs)


def run(F, M, p, infix, kset, outer=None, self_=None, loop_limit=1):
    I = make_interp(F, M.policy(), loop_limit=loop_limit, max_states=300000)
    z = infix and kset == {"Fake_ImplicitTimes"}
    st, start, args = M.state(I, infix, z, kset, 0)
    st.mem["self"] = self_ or Adt("$self", None, {}, Sym("self"))
    if outer is not None:
        cs = ("S", (("f", F.fidx(SESSION, "context_stack")),))
        v = I.read(st, cs)
        a = dict(v.fields[0].fields)
        c = a[0]
        a[0] = Adt(c.name, c.variant, {**c.fields, F.fidx("parse::Context", "prec"): outer})
        I.write(st, cs, Adt("vec", None, {0: Adt("[]", None, a)}))
    return I, I.run(p, [Ref("self"), Ref("S")] + args, st)


def rule_forms(ctx):
    F = ctx.facts()
    ctx.rule("for every parselet, the shape of the node it leaves on each path (builder method, operator, leaf token kinds, operand precedences) "
             "equals one of the forms the language defines for its tokens; brackets end only at their own closer, error leaves depend on the context "
             "as documented, operator runs continue exactly while the operator is the same")
    ctx.assume("operator runs of up to two further rounds; recursive parses by contract (P15)")
    M = Model(F)
    pc = prec_consts(F)
    pre, inf, D = forms(F, M, pc)
    n = 0
    for trait, ty, p, ks in parselets(F):
        infix = trait == "InfixParselet"
        spec = (inf if infix else pre).get(ty)
        if ty in ("GroupParselet", "CallParselet"):
            n += groups(ctx, F, pc, D, ty, p, ks, infix)
            continue
        if not infix and ty in ("PrefixCloserParselet", "PrefixEndOfFileParselet", "PrefixCommaParselet"):
            n += errors(ctx, F, M, pc, D, ty, p, ks)
            continue
        if spec is None:
            if ks and not panics_only(F, M, p, infix) and ty != "PrefixUnhandledParselet":
                ctx.undec("%s: no forms given" % ty)
            continue
        if not ks and ty == "PrefixToplevelCloserParselet":
            ks = D["closers"]
        if not ks:
            continue
        cases = [ks]
        if infix and "Fake_ImplicitTimes" in ks:
            cases = [x for x in (ks - {"Fake_ImplicitTimes"}, {"Fake_ImplicitTimes"}) if x]
        for kset in cases:
            n += check(ctx, F, M, pc, ty, p, infix, kset, spec)
    n += pattern_precedence(ctx, F, pc)
    ctx.floor("shapes", n, 100)


def label_of(F, ty, p):
    return "%s (%s)" % (ty, F.loc(p))


def check(ctx, F, M, pc, ty, p, infix, kset, spec):
    label = label_of(F, ty, p)
    try:
        I, outs = run(F, M, p, infix, kset, loop_limit=2 if ty in ("SemiParselet",) else 1)
    except (Limit, Bad) as e:
        ctx.undec("%s: %s" % (label, e))
        return 0
    n = 0
    seen = set()
    used = set()
    newline = set()
    for o in outs:
        if o.kind != "return" or not o.state.mem["$stk"]:
            continue
        n += 1
        sh = o.state.mem["$stk"][-1][3]
        R = Shape(F, I, o.state, pc, spec)
        if isinstance(spec, dict):
            # the colon: decided by what is left of it
            r = [k for k in o.state.cons if isinstance(k, Sym) and isinstance(k.id, tuple) and k.id[0] == "disc" and isinstance(k.id[1], tuple) and k.id[1][0] == "colonlhs"]
            e = [x for x in F.adts if x.endswith("::ColonLHS")]
            vs = [v["name"] for v in F.adts[e[0]]["variants"] if r and any(l <= v["discr"] <= h for l, h in o.state.cons[r[0]])]
            pats = [spec[v] for v in vs if v in spec]
            if len(vs) != 1 or not pats:
                ctx.undec("%s: which kind of left side is not resolved" % label)
                continue
        else:
            pats = spec
        hit = [i for i, q in enumerate(pats) if R.match(q, sh)]
        if not hit:
            ctx.bad("form:%s:%s" % (ty, R.show(sh)[:80]), "%s: builds %s, which is not a form of this construct" % (label, R.show(sh)[:400]))
            continue
        used.add(hit[0])
        fakes(sh, R, newline)
        if not continuation(ctx, F, I, o, sh, R, label, ty):
            continue
        ctx.ok()
    if not isinstance(spec, dict) and len(used) < len(spec) and n:
        ctx.bad("form:%s:missing" % ty, "%s: a form of this construct is never built (%s)" % (label, str(spec[min(set(range(len(spec))) - used)])[:120]))
    if ty in ("SemiParselet", "SemiSemiParselet"):
        if "ToplevelNewline" in newline:
            ctx.ok()
        else:
            ctx.bad("form:%s:newline" % ty, "%s: continues over a top-level newline" % label)
    return n


def fakes(sh, R, out):
    if isinstance(sh, tuple):
        if sh and sh[0] == "leaf" and len(sh) == 3 and isinstance(sh[1], Adt) and sh[1].variant and sh[1].variant.startswith("Fake_"):
            out |= R.at(sh[2])
        for x in sh:
            fakes(x, R, out)


def continuation(ctx, F, I, o, sh, R, label, ty):
    """operator runs go on exactly while the operator is the same"""
    if ty not in ("InfixOperatorParselet", "TimesParselet"):
        return True
    ev = [e for e in o.state.events() if e[0] == "sameop"]
    if not ev:
        ctx.undec("%s: comparison of operators not recognised" % label)
        return False
    res = []
    for e in ev:
        r = I.rng(o.state, e[3])
        res.append(r[0][0] if r and r[0][0] == r[0][1] else None)
    node = sh[2]
    extra = (len(node) - 2 - 3) // 2
    if None in res:
        ctx.undec("%s: comparison of operators not resolved" % label)
        return False
    if res.count(1) != extra or res[-1] != 0:
        ctx.bad("form:%s:run" % ty, "%s: continues with an operator that differs, or stops at the same operator" % label)
        return False
    return True


def groups(ctx, F, pc, D, ty, p, ks, infix):
    """every opener: its own closer ends the group; another bracket's closer ends it only if an outer bracket waits for it"""
    T = parselet_table(F, "INFIX" if infix else "PREFIX")
    label = label_of(F, ty, p)
    n = 0
    K, C, N, S, O, at, lhs = (D[x] for x in ("K", "C", "N", "S", "O", "at", "lhs"))
    for k in sorted(ks):
        if k not in PAIRS:
            ctx.undec("%s: %s has no closer" % (label, k))
            continue
        M = Model(F)
        M.split_kinds = True
        cl = PAIRS[k]
        other = D["closers"] - {cl}
        I0 = make_interp(F, None)
        self_ = I0.cv({"adt": "parse::parselet::" + ty, "f": T[k][1]})
        item = ("or", O("none", K - D["closers"] - {"EndOfFile"}), at("Error_UnexpectedCloser", other))
        grp = N("reduce_group", None, S(k), ("many", item), S(cl))
        unt = N("reduce_unterminated_group", None, S(k), ("many", item))
        mis = N("reduce_group_missing_closer", None, S(k), ("many", item))
        try:
            I, outs = run(F, M, p, infix, {k}, self_=self_)
        except (Limit, Bad) as e:
            ctx.undec("%s, %s: %s" % (label, k, e))
            continue
        got = set()
        for o in outs:
            if o.kind != "return":
                continue
            n += 1
            R = Shape(F, I, o.state, pc, None)
            sh = o.state.mem["$stk"][-1][3]
            node = sh
            inner = None
            if infix:
                ok = sh[0] == "climb" and R.prec("outer", sh[1]) and sh[2][0] == "reduce_call" and len(sh[2]) == 4 and R.match(lhs, sh[2][2])
                node = sh[2][3] if ok else None
                inner = "HIGHEST"
            else:
                ok = True
                inner = "outer"
            what = None
            if ok:
                if node[0] == "climb":
                    ok = R.prec(inner, node[1])
                    what = "reduce_group" if ok and R.match(grp, node[2]) else None
                elif R.match(unt, node):
                    what = "unterminated" if R.at(stop(o)) <= {"EndOfFile"} else None
                elif R.match(mis, node):
                    # the closer in front of which it stops: trivia before it is given back
                    what = "missing" if any(R.flag("check_group", x) == 1 and R.at(x) <= other for x in positions(o)) else None
            if what is None:
                ctx.bad("group:%s:%s" % (k, R.show(sh)[:60]), "%s: bracket %s builds %s, which is not a bracket form (closer %s)" % (label, k, R.show(sh)[:300], cl))
                continue
            # leaves for unexpected closers: nobody outside waits for them
            ok = True
            for q in unexpected(node):
                if R.flag("check_group", q) != 0:
                    ok = False
            if not ok:
                ctx.bad("group:%s:unexpected" % k, "%s: bracket %s treats a closer as unexpected though an enclosing bracket may wait for it" % (label, k))
                continue
            got.add(what)
            ctx.ok()
        if got and got != {"reduce_group", "unterminated", "missing"}:
            ctx.bad("group:%s:missing form" % k, "%s: bracket %s never builds %s" % (label, k, sorted({"reduce_group", "unterminated", "missing"} - got)))
    return n


def positions(o):
    return [s.id[1] for s in o.state.cons if isinstance(s, Sym) and isinstance(s.id, tuple) and s.id[0] == "check_group"]


def unexpected(sh):
    out = []
    if isinstance(sh, tuple):
        if sh and sh[0] == "leaf" and isinstance(sh[1], Adt) and sh[1].variant == "Error_UnexpectedCloser":
            out.append(sh[2])
        for x in sh:
            out += unexpected(x)
    return out


def stop(o):
    """where reading stopped, before climbing on"""
    p = o.state.mem["$pos"]
    if o.state.mem["$stk"][-1][3][0] == "climb" and isinstance(p.id, tuple) and p.id[0] == "after":
        return p.id[1]
    return p


def errors(ctx, F, M, pc, D, ty, p, ks):
    """missing operands: the kind of the error leaf depends on the innermost context"""
    n = 0
    label = label_of(F, ty, p)
    some = lambda v: Adt(OPT, "Some", {0: Adt(PREC, None, {0: v})})
    cases = [("no context", Adt(OPT, "None", {})), ("an argument list", some(pc["COMMA"]))]
    cases += [(x, some(pc[x])) for x in ("PLUS", "HIGHEST", "SEMI", "AT", "LOWEST", "EQUAL", "SEMISEMI") if x in pc]
    for name, v in cases:
        if ty == "PrefixCommaParselet":
            want = "Error_PrefixImplicitNull" if name == "no context" else "Error_ExpectedOperand"
        else:
            want = "Error_InfixImplicitNull" if name == "an argument list" else "Error_ExpectedOperand"
        try:
            I, outs = run(F, M, p, False, ks, outer=v)
        except (Limit, Bad) as e:
            ctx.undec("%s: %s" % (label, e))
            continue
        for o in outs:
            if o.kind != "return":
                continue
            n += 1
            sh = o.state.mem["$stk"][-1][3]
            R = Shape(F, I, o.state, pc, None)
            if ty == "PrefixCommaParselet":
                good = sh[0] == "climb" and sh[1] == v and R.match(("leaf", {want}, ks), sh[2])
            else:
                good = R.match(("leaf", {want}, ks), sh)
            if good and stop(o) == P0:
                ctx.ok()
            else:
                ctx.bad("error:%s:%s" % (ty, name), "%s: in %s a missing operand gives %s, expected %s in front of the token" % (label, name, R.show(sh)[:120], want))
    return n


def pattern_precedence(ctx, F, pc):
    """a colon inside a pattern name context separates the default value"""
    fn = [k for k in F.fns if k.endswith("::check_pattern_precedence")]
    if not fn or "FAKE_PATTERNCOLON" not in pc:
        ctx.undec("check_pattern_precedence not found")
        return 0
    x = pc["FAKE_PATTERNCOLON"]
    n = 0
    CT = "parse::Context"
    vals = [None, x - 1, x, x + 1]
    import itertools
    for d in range(4):
        for combo in itertools.product(vals, repeat=d):
            I = make_interp(F, None, loop_limit=8)
            st = State()
            a = {}
            for i, v in enumerate(combo):
                pv = Adt(OPT, "None", {}) if v is None else Adt(OPT, "Some", {0: Adt(PREC, None, {0: v})})
                a[i] = Adt(CT, None, {F.fidx(CT, "prec"): pv, F.fidx(CT, "builder_data"): Sym("b")})
            st.mem["S"] = Adt(SESSION, None, {F.fidx(SESSION, "context_stack"): Adt("vec", None, {0: Adt("[]", None, a)})})
            want = 0
            for v in reversed(combo):
                if v is None or v < x:
                    break
                if v == x:
                    want = 1
                    break
            try:
                rs = {o.ret if o.kind == "return" else o.kind for o in I.run(fn[0], [Ref("S")], st)}
            except Limit as e:
                rs = {"?"}
            n += 1
            if rs == {want}:
                ctx.ok()
            elif rs & {0, 1, "panic"} and all(r in (0, 1, "panic") for r in rs):
                ctx.bad("patternprec", "%s: with contexts %s (relative to the pattern colon) the answer is %s, expected %s" % (
                    F.loc(fn[0]), [None if v is None else v - x for v in combo], sorted(map(str, rs)), want))
            else:
                ctx.undec("%s: answer not resolved for %s (%s)" % (F.loc(fn[0]), combo, str(rs)[:80]))
    return n
