"""Parser event discipline (P15).

Every parselet (and the climbing, top-level and helper code it uses) is interpreted abstractly against an abstract
builder and an abstract token stream:

  * a position is a symbol; reading a token at position p yields a token [p, end(p)) of unknown kind;
  * the builder keeps the node stack, every entry with the input segments it covers;
  * recursive parses are replaced by their contract: exactly one node, covering everything from the position where the
    parse starts to the one where it stops, with contexts and brackets as before.

Because every parselet is shown to meet the contract it relies on, the contract holds for every input."""
from interp import *
from rules.common import *
from rules.lexer import TKZ, TOKEN, KIND
from rules.tables import parselet_table, kinds as kind_names, PREDS

SESSION = "parse::ParserSession"
BUILDER = "parse::ParseBuilder::"
P0 = Sym("p0")
OPT = "core::option::Option"


class Bad(Exception):
    pass


def discs(F):
    return {v["name"]: v["discr"] for v in F.adts[KIND]["variants"]}


def kinds_of(F, I, st, v):
    """set of kinds a kind value may have on this path"""
    if isinstance(v, Adt) and v.variant is not None:
        return {v.variant}
    ds = discs(F)
    base = v.base.id if isinstance(v, Adt) else v.id if isinstance(v, Sym) else None
    r = I.rng(st, Sym(("disc", base)))
    return {n for n, d in ds.items() if any(l <= d <= h for l, h in r)}


def restrict(F, I, st, v, names):
    """constrain a symbolic kind to a set of kinds; False if impossible"""
    ds = discs(F)
    if isinstance(v, Adt) and v.variant is not None:
        return v.variant in names
    base = v.base.id if isinstance(v, Adt) else v.id
    s = Sym(("disc", base))
    rs = r_int(I.rng(st, s), r_norm([(ds[n], ds[n]) for n in names]))
    if not rs:
        return False
    st.cons[s] = rs
    return True


class Model:
    """abstract token stream + builder for one interpreter"""

    def __init__(self, F, stop_at_climb=True):
        self.F = F
        self.ti, self.tx, self.ts = F.fidx(TOKEN, "tok"), F.fidx(TOKEN, "input"), F.fidx(TOKEN, "src")
        self.tabs = {}
        self.stub_climb = stop_at_climb
        self.panic_prefix = set()
        self.max_trivia = 1
        self.split_kinds = False    # follow functions of the token kind value by value
        self.trivia = set()
        for x in F.fns:
            if x.endswith("TokenKind::isTrivia"):
                self.trivia = (self.kind_table(x) or {}).get(("return", 1), set())

    # ---- tokens
    def token(self, kind, start, end):
        return Adt(TOKEN, None, {self.ti: kind, self.tx: Adt("$txt", None, {0: start, 1: end}), self.ts: Adt("$span", None, {0: start, 1: end})})

    def ext(self, I, st, v):
        while isinstance(v, Ref):
            v = I.read(st, (v.obj, v.path))
        if isinstance(v, Adt) and v.name == TOKEN:
            t = v.fields.get(self.tx)
            if isinstance(t, Adt) and t.name == "$txt":
                return t.fields[0], t.fields[1]
        return None

    def kind(self, I, st, v):
        while isinstance(v, Ref):
            v = I.read(st, (v.obj, v.path))
        return v.fields[self.ti]

    def read(self, I, st, policy):
        p = st.mem["$pos"]
        key = (p, policy, len(st.mem["$groups"]))
        kv = Adt(KIND, None, {}, Sym(("kind", key)))
        if self.max_trivia is not None:
            # bound on runs of trivia
            n, q = 0, p
            while isinstance(q.id, tuple) and q.id[0] == "end":
                ks = kinds_of(self.F, I, st, Adt(KIND, None, {}, Sym(("kind", q.id[1]))))
                if not ks <= self.trivia:
                    break
                n += 1
                q = q.id[1][0]
            if n >= self.max_trivia:
                restrict(self.F, I, st, kv, set(discs(self.F)) - self.trivia)
        return self.token(kv, p, Sym(("end", key)))

    # ---- builder
    def push(self, st, tag, segs, shape=None):
        st.n += 1
        h = ("h", tag, st.n)
        st.mem["$stk"] = st.mem["$stk"] + ((tag, tuple(segs), h, shape or (tag,)),)
        return Adt("$h", None, {0: h})

    def flat(self, I, st, v, out):
        """tokens / handles inside a value, in field order"""
        while isinstance(v, Ref):
            v = I.read(st, (v.obj, v.path))
        if isinstance(v, Adt):
            if v.name == TOKEN:
                e = self.ext(I, st, v)
                if e is None:
                    raise Bad("token not resolved")
                out.append(("tok", e))
            elif v.name in ("$h", "$th"):
                out.append((v.name, v.fields.get(0)))
            else:
                for i in sorted(v.fields, key=str):
                    self.flat(I, st, v.fields[i], out)
        return out

    def kinds_in(self, I, st, v, ks, ops):
        """kinds of the tokens inside a value and the operators among them, in field order"""
        while isinstance(v, Ref):
            v = I.read(st, (v.obj, v.path))
        if isinstance(v, Adt):
            if v.name == TOKEN:
                ks.append(v.fields[self.ti])
            elif v.name.startswith("parse::operators::"):
                ops.append(v)
            elif v.name not in ("$h", "$th"):
                for i in sorted(v.fields, key=str):
                    self.kinds_in(I, st, v.fields[i], ks, ops)

    def reduce(self, I, st, name, ctx, hs, op=None):
        if not (isinstance(ctx, Adt) and ctx.name == "$ctx"):
            raise Bad("context data not resolved: %r" % (ctx,))
        i = ctx.fields[0]
        stk = st.mem["$stk"]
        if i >= len(stk):
            st.emit("viol", "%s: the context starts beyond the nodes on the stack" % name)
            i = len(stk)
        ch = stk[i:]
        st.mem["$stk"] = stk[:i]
        if hs is not None:
            want = []
            for h in hs:
                if h[0] == "$th":
                    want += list(h[1] or ())
                else:
                    want.append(h[1])
            have = [c[2] for c in ch]
            if want != have:
                st.emit("viol", "%s: the parts handed over (%s) are not the nodes of its context in order (%s)" % (
                    name, ", ".join(w[1] for w in want), ", ".join(c[0] for c in ch)))
        segs = [s for c in ch for s in c[1]]
        return self.push(st, "node", segs, (name, op) + tuple(c[3] for c in ch if c[0] != "trivia"))

    def recurse(self, I, st, tag):
        """new position after a recursive parse started at the current one"""
        p = st.mem["$pos"]
        q = Sym(("after", p, len(st.mem["$groups"])))
        st.mem["$pos"] = q
        return p, q

    def top_prec(self, I, st):
        v = I.read(st, ("S", (("f", self.F.fidx(SESSION, "context_stack")),)))
        try:
            arr = v.fields[0]
            return arr.fields[len(arr.fields) - 1].fields[0] if arr.fields else Adt(OPT, "None", {})
        except (AttributeError, KeyError):
            return None

    def ctx_depth(self, I, st):
        v = I.read(st, ("S", (("f", self.F.fidx(SESSION, "context_stack")),)))
        try:
            return len(v.fields[0].fields)
        except AttributeError:
            return None

    def builder_call(self, I, st, m, args):
        a = args
        if m == "resettable_trivia_begin":
            return Adt("$acc", None, {})
        if m == "resettable_trivia_push":
            r = a[1]
            v = I.read(st, (r.obj, r.path))
            I.write(st, (r.obj, r.path), Adt("$acc", None, {**v.fields, len(v.fields): a[2]}))
            return UNIT
        if m == "resettable_trivia_end":
            return Adt("$rth", None, a[1].fields)
        if m == "reset_trivia_seq":
            h = a[1]
            return Adt(OPT, "Some", {0: h.fields[0]}) if h.fields else Adt(OPT, "None", {})
        if m == "push_trivia_seq":
            hs = []
            for i in sorted(a[1].fields):
                hs.append(self.push(st, "trivia", [self.ext(I, st, a[1].fields[i])]).fields[0])
            return Adt("$th", None, {0: tuple(hs)})
        if m == "empty_trivia":
            return Adt("$th", None, {0: ()})
        if m == "begin_context":
            n = len(st.mem["$stk"])
            if n == 0:
                st.emit("viol", "a context is begun with no node to include")
            return Adt("$ctx", None, {0: max(n - 1, 0)})
        if m in ("push_leaf", "push_syntax"):
            e = self.ext(I, st, a[1])
            if e is None:
                raise Bad("token not resolved")
            st.emit(m, self.kind(I, st, a[1]), e)
            return self.push(st, "leaf" if m == "push_leaf" else "syntax", [e], ("leaf" if m == "push_leaf" else "syntax", self.kind(I, st, a[1]), e[0]))
        if m.startswith("push_compound"):
            toks = []
            for x in a[1:]:
                self.flat(I, st, x, toks)
            st.emit("compound", m, tuple(x for x in a[1:]))
            ks, ops = [], []
            for x in a[1:]:
                self.kinds_in(I, st, x, ks, ops)
            return self.push(st, "compound", [t[1] for t in toks], (m, tuple(ops)) + tuple(ks))
        if m == "begin_infix":
            return Adt("$inf", None, {0: a[1], 1: tuple(self.flat(I, st, a[2], []))})
        if m == "begin_group":
            return Adt("$grp", None, {0: None, 1: tuple(self.flat(I, st, a[1], []))})
        if m in ("infix_add", "group_add"):
            r = a[1]
            v = I.read(st, (r.obj, r.path))
            hs = []
            for x in a[2:]:
                self.flat(I, st, x, hs)
            I.write(st, (r.obj, r.path), Adt(v.name, None, {0: v.fields[0], 1: v.fields[1] + tuple(hs)}))
            return UNIT
        if m.startswith("reduce_"):
            ctx, rest = a[1], a[2:]
            hs, op, state = [], None, None
            for x in rest:
                if isinstance(x, Adt) and x.name in ("$inf", "$grp"):
                    hs += list(x.fields[1])
                    op = op if op is not None else x.fields[0]
                elif isinstance(x, Adt) and x.name in ("$h", "$th"):
                    hs.append((x.name, x.fields[0]))
                elif isinstance(x, Adt) and x.name.startswith("parse::SyntaxErrorData"):
                    op = x
                    k = []
                    self.flat(I, st, x, k)
                    hs = k if k else None
                elif isinstance(x, Adt) and x.name == TOKEN:
                    # the operand token of <<, pushed as a leaf just before
                    e = self.ext(I, st, x)
                    top = st.mem["$stk"][-1] if st.mem["$stk"] else None
                    if top is None or top[1] != (e,):
                        st.emit("viol", "%s: the operand token is not the node pushed last" % m)
                    else:
                        hs.append(("$h", top[2]))
                elif isinstance(x, Adt) and x.name.startswith("parse::operators::"):
                    op = x
                elif op is None and (isinstance(x, (Adt, Sym))):
                    op = x
            st.emit("reduce", m, op)
            return self.reduce(I, st, m, ctx, hs, op)
        if m == "is_quiescent":
            return 1
        if m == "finish_top_level_trivia":
            e = self.ext(I, st, a[1])
            st.mem["$fin"] = st.mem["$fin"] + (e,)
            return UNIT
        if m == "finish_top_level_expr":
            stk = st.mem["$stk"]
            if not stk:
                st.emit("viol", "a finished expression is taken from an empty stack")
                return UNIT
            st.mem["$stk"] = stk[:-1]
            st.mem["$fin"] = st.mem["$fin"] + stk[-1][1]
            return UNIT
        return None

    # ---- functions over the finite set of kinds
    def kind_table(self, name):
        if name not in self.tabs:
            F = self.F
            f = F.fns[name]
            J = Interp(F, None, max_states=20000)
            tab = {}
            for k in kind_names(F):
                st = State()
                st.mem["k"] = Adt(KIND, k, {})
                arg = Ref("k") if F.types[f["locals"][1]]["k"] == "ref" else st.mem["k"]
                try:
                    r = {(o.kind, o.ret) for o in J.run(name, [arg], st)}
                except Limit:
                    r = set()
                if len(r) != 1:
                    tab = None
                    break
                o = r.pop()
                if o[0] == "return" and not isinstance(o[1], (int, Adt)):
                    tab = None
                    break
                tab.setdefault(o, set()).add(k)
            self.tabs[name] = tab
        return self.tabs[name]

    def is_kind_fn(self, name):
        F = self.F
        if name not in F.fns or F.fns[name]["argc"] != 1:
            return False
        t = F.types[F.fns[name]["locals"][1]]
        if t["k"] == "ref":
            t = F.types[t["to"]] if "to" in t else t
        return t["s"].replace("&", "") == KIND and F.types[F.fns[name]["locals"][0]]["k"] in ("bool", "adt") and "fmt" not in name

    def policy(self):
        F = self.F
        E = effects(F)

        def pol(I, st, name, decl, k, args, t):
            d = decl or name
            last = name.rsplit("::", 1)[-1]
            if d.startswith(BUILDER) and name not in F.fns:
                if last == "with_prefix_parselet" or last == "with_infix_parselet":
                    st.mem[("$dyn", args[0])] = Adt("$dyn", None, {0: args[0]})
                    return ("calls", args[1], [Ref(("$dyn", args[0]))])
                if last == "check_colon_lhs":
                    e = [x for x in F.adts if x.endswith("::ColonLHS")]
                    return ("ret", Adt(e[0], None, {}, Sym(("colonlhs", st.mem["$pos"]))))
                if last == "top_node_is_span":
                    s = Sym(("span?", st.mem["$pos"]))
                    st.cons.setdefault(s, ((0, 1),))
                    return ("ret", s)
                r = self.builder_call(I, st, last, args)
                if r is not None:
                    return ("ret", r)
                return None
            if args and isinstance(args[0], Adt) and args[0].name == "$dyn" or (
                    args and isinstance(args[0], Ref) and isinstance(I.read(st, (args[0].obj, args[0].path)), Adt) and I.read(st, (args[0].obj, args[0].path)).name == "$dyn"):
                return self.dyn(I, st, last, args)
            if name in F.fns:
                if last in ("peek_token", "peek_token_with") and "Tokenizer" in name:
                    pol_ = args[1] if len(args) > 1 else None
                    return ("ret", self.read(I, st, pol_))
                if last.startswith("Tokenizer_currentToken_stringify"):
                    return ("ret", self.read(I, st, last))
                if name.startswith("tokenize::token::") and last in ("skip", "reset", "at", "at_start"):
                    v = args[0] if last in ("skip", "reset") else args[1]
                    e = self.ext(I, st, v)
                    if e is None:
                        raise Bad("token not resolved in %s" % last)
                    if last == "skip":
                        if e[0] != st.mem["$pos"]:
                            st.emit("viol", "skips a token that does not start at the reading position")
                        st.mem["$pos"] = e[1]
                        return ("ret", UNIT)
                    if last == "reset":
                        st.mem["$pos"] = e[0]
                        return ("ret", UNIT)
                    return ("ret", self.token(args[0], e[0], e[1] if last == "at" else e[0]))
                if self.stub_climb and last == "parse_climb" and name.startswith(SESSION):
                    return ("ret", self.climb(I, st, args))
                if last == "greater" and name.startswith("precedence::"):
                    s = Sym(("greater", args[0], args[1]))
                    st.cons.setdefault(s, ((0, 1),))
                    st.emit("greater", args[0], args[1], s)
                    return ("ret", s)
                if last in ("check_group", "check_pattern_precedence") and name.startswith(SESSION):
                    s = Sym((last, st.mem["$pos"]))
                    st.cons.setdefault(s, ((0, 1),))
                    return ("ret", s)
                if last == "push_group" and name.startswith(SESSION):
                    st.mem["$groups"] = st.mem["$groups"] + (args[1],)
                    return ("ret", UNIT)
                if last == "pop_group" and name.startswith(SESSION):
                    if not st.mem["$groups"]:
                        st.emit("viol", "closes a bracket that is not open")
                    st.mem["$groups"] = st.mem["$groups"][:-1]
                    return ("ret", UNIT)
                if self.is_kind_fn(name):
                    v = args[0]
                    while isinstance(v, Ref):
                        v = I.read(st, (v.obj, v.path))
                    if isinstance(v, (Adt, Sym)):
                        tab = self.kind_table(name)
                        if tab and not self.split_kinds and len(tab) > 4 and len(kinds_of(F, I, st, v)) > 1:
                            rt = ret_ty(F, name)["s"]
                            return ("ret", Adt(rt, None, {}, Sym(("kf", name, v))))
                        if tab:
                            outs = []
                            for (ok, rv), ks in sorted(tab.items(), key=str):
                                s2 = st.fork()
                                if restrict(F, I, s2, v, ks) and ok == "return":
                                    outs.append((s2, rv))
                            return ("outs", outs)
            if d in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(args) == 2:
                vs = []
                for v in args:
                    while isinstance(v, Ref):
                        v = I.read(st, (v.obj, v.path))
                    vs.append(v)
                if any(isinstance(v, Sym) and isinstance(v.id, tuple) and v.id[0] == "op" for v in vs):
                    s = Sym(("same", frozenset(vs)))
                    st.cons.setdefault(s, ((0, 1),))
                    st.emit("sameop", vs[0], vs[1], s)
                    if d.endswith("::eq"):
                        return ("ret", s)
                    return ("ret", I.binop(st, "Eq", s, 0))
            if d == "core::convert::Into::into" and isinstance(args[0], Adt):
                if args[0].name == "precedence::Precedence":
                    return ("ret", Adt(OPT, "Some", {0: args[0]}))
                if args[0].name == OPT:
                    return ("ret", args[0])
            if "from_utf8" in name:
                return ("ret", Adt("core::result::Result", "Ok", {0: Sym("utf8")}))
            return None
        return pol

    def climb(self, I, st, args):
        stk = st.mem["$stk"]
        h = args[1].fields.get(0) if isinstance(args[1], Adt) else None
        if not stk or stk[-1][2] != h:
            st.emit("viol", "continues after a node that is not the last one pushed")
        st.emit("climb", self.top_prec(I, st))
        p, q = self.recurse(I, st, "climb")
        if stk:
            st.mem["$stk"] = stk[:-1]
            return self.push(st, "node", stk[-1][1] + ((p, q),), ("climb", self.top_prec(I, st), stk[-1][3]))
        return self.push(st, "node", [(p, q)])

    def dyn(self, I, st, m, args):
        F = self.F
        d = args[0]
        while isinstance(d, Ref):
            d = I.read(st, (d.obj, d.path))
        kv = d.fields[0]
        if m == "getPrecedence":
            return ("ret", Sym(("prec", kv)))
        if m == "getOp":
            return ("ret", Sym(("op", kv)))
        if m == "process_implicit_times":
            tok = args[2]
            e = self.ext(I, st, tok)
            s2 = st.fork()
            s2.emit("implicit")
            return ("outs", [(st, tok), (s2, self.token(Adt(KIND, "Fake_ImplicitTimes", {}), e[0], e[0]))])
        if m == "parse_prefix":
            tok = args[2]
            e = self.ext(I, st, tok)
            if e is None:
                raise Bad("token not resolved")
            kv2 = self.kind(I, st, tok)
            ks = kinds_of(F, I, st, kv2)
            if e[0] != st.mem["$pos"] or e[0] == e[1]:
                st.emit("viol", "parses an operand from a token that is not the next one")
            if kv2 != kv:
                st.emit("viol", "looks up the operand parser of a different token")
            bad = sorted(ks & self.panic_prefix)
            if bad:
                st.emit("viol", "parses an operand from a token that cannot start one (%s)" % ", ".join(bad[:4]))
            st.emit("operand", kv2, self.top_prec(I, st))
            p, q = self.recurse(I, st, "prefix")
            return ("ret", self.push(st, "node", [(p, q)], ("operand", self.top_prec(I, st), kv2)))
        if m == "parse_infix":
            node, triv, tok = args[2], args[3], args[4]
            e = self.ext(I, st, tok)
            if e is None:
                raise Bad("token not resolved")
            if e[0] != st.mem["$pos"]:
                st.emit("viol", "continues with an operator that is not the next token")
            if self.kind(I, st, tok) != kv:
                st.emit("viol", "looks up the operator parser of a different token")
            v = I.read(st, ("S", (("f", F.fidx(SESSION, "context_stack")),)))
            try:
                arr = v.fields[0]
                cx = arr.fields[len(arr.fields) - 1]
                i = [x for x in cx.fields.values() if isinstance(x, Adt) and x.name == "$ctx"][0].fields[0]
            except (AttributeError, KeyError, IndexError):
                raise Bad("context stack not resolved")
            stk = st.mem["$stk"]
            want = [node.fields.get(0)] + list(triv.fields.get(0) or ())
            if [x[2] for x in stk[i:]] != want:
                st.emit("viol", "the operator's context does not start at its left operand")
            st.emit("operator", kv, self.top_prec(I, st))
            f = dict(arr.fields)
            f.pop(len(f) - 1)
            I.write(st, ("S", (("f", F.fidx(SESSION, "context_stack")),)), Adt("vec", None, {0: Adt("[]", None, f)}))
            segs = [s for c in stk[i:] for s in c[1]]
            st.mem["$stk"] = stk[:i]
            p, q = self.recurse(I, st, "infix")
            return ("ret", self.push(st, "node", segs + [(p, q)]))
        return None

    # ---- initial state
    def state(self, I, infix=False, zero=False, kinds=None, trivia=1, empty=False):
        F = self.F
        st = State()
        st.mem["$groups"] = () if empty else ("G0",)
        st.mem["$fin"] = ()
        ctxs = {}
        CT = "parse::Context"
        ip = F.fidx(CT, "prec")
        ib = F.fidx(CT, "builder_data")
        if not empty:
            ctxs[0] = Adt(CT, None, {ip: Sym("outer_prec"), ib: Adt("$ctx", None, {0: 0})})
        stk = () if empty else (("base", (), ("h", "base", 0), ("base",)),)
        pos = P0
        args = []
        start = P0
        if infix:
            stk += (("node", ((Sym("s0"), Sym("s1")),), ("h", "node", -1), ("LHS",)),)
            th = ()
            prev = Sym("s1")
            if trivia:
                stk += (("trivia", ((Sym("s1"), P0),), ("h", "trivia", -2), ("trivia",)),)
                th = (("h", "trivia", -2),)
            else:
                stk = stk[:-1] + (("node", ((Sym("s0"), P0),), ("h", "node", -1), ("LHS",)),)
            start = Sym("s0")
            ctxs[1] = Adt(CT, None, {ip: Sym("own_prec"), ib: Adt("$ctx", None, {0: 1})})
            args = [Adt("$h", None, {0: ("h", "node", -1)}), Adt("$th", None, {0: th})]
        st.mem["$pos"] = pos
        st.mem["$stk"] = stk
        st.mem["S"] = Adt(SESSION, None, {F.fidx(SESSION, "context_stack"): Adt("vec", None, {0: Adt("[]", None, ctxs)}),
                                         F.fidx(SESSION, "tokenizer"): Adt(TKZ, None, {}, Sym("TK")),
                                         F.fidx(SESSION, "builder"): Sym("B"),
                                         F.fidx(SESSION, "quirk_settings"): Sym("Q")})
        kv = Adt(KIND, None, {}, Sym(("kind", (P0, "in", 0))))
        if kinds is not None:
            if zero and len(kinds) == 1:
                kv = Adt(KIND, sorted(kinds)[0], {})
            restrict(F, I, st, kv, kinds)
        tok = self.token(kv, P0, P0 if zero else Sym(("end", (P0, None, len(st.mem["$groups"])))))
        return st, start, args + [tok]


def parselets(F):
    """[(trait, type, method path, kinds)]"""
    out = []
    for which, trait, m in (("PREFIX", "PrefixParselet", "parse_prefix"), ("INFIX", "InfixParselet", "parse_infix")):
        T = parselet_table(F, which)
        by = {}
        for k, (ty, f) in T.items():
            by.setdefault(ty, set()).add(k)
        for s, p in F.impl_methods(trait, m):
            ty = s.split("<")[0].split("::")[-1]
            if p in F.fns and "test" not in p.lower():
                out.append((trait, ty, p, by.get(ty, set())))
    return out


def judge(ctx, F, M, I, label, o, start, base, want_ctx, want_groups, ret=True):
    st = o.state
    for e in st.events():
        if e[0] == "viol":
            ctx.bad("parse:%s:%s" % (label, e[1][:60]), "%s: %s" % (label, e[1]))
            return False
    stk = st.mem["$stk"]
    if ret:
        if len(stk) != base + 1:
            ctx.bad("parse:%s:stack" % label, "%s: leaves %d nodes on the stack instead of one" % (label, len(stk) - base))
            return False
        h = o.ret.fields.get(0) if isinstance(o.ret, Adt) else None
        if h != stk[-1][2]:
            ctx.bad("parse:%s:ret" % label, "%s: returns a node that is not the one left on the stack" % label)
            return False
        segs = list(stk[-1][1])
    else:
        segs = list(st.mem["$fin"])
    segs = [s for s in segs if s[0] != s[1]]
    at = start
    for a, b in segs:
        if a != at:
            ctx.bad("parse:%s:order" % label, "%s: the tokens of the resulting node are not the tokens of the input in order (%s)" % (
                label, "a token is dropped" if all(x[0] != at for x in segs) else "a token is out of order or repeated"))
            return False
        at = b
    if at != st.mem["$pos"]:
        ctx.bad("parse:%s:end" % label, "%s: the resulting node ends where reading did not stop (%s)" % (
            label, "a consumed token is dropped" if all(x[1] != st.mem["$pos"] for x in segs) or not segs else "a token in the node is read again"))
        return False
    d = M.ctx_depth(I, st)
    if d != want_ctx:
        if d is None:
            ctx.undec("%s: context stack not resolved" % label)
        else:
            ctx.bad("parse:%s:ctx" % label, "%s: %+d parser contexts after the parse" % (label, d - want_ctx))
        return False
    if st.mem["$groups"] != want_groups:
        ctx.bad("parse:%s:groups" % label, "%s: open brackets changed by the parse" % label)
        return False
    ctx.ok()
    return True


def panics_only(F, M, p, infix):
    I = make_interp(F, M.policy(), loop_limit=2)
    st, start, args = M.state(I, infix)
    st.mem["self"] = Adt("$self", None, {}, Sym("self"))
    try:
        outs = I.run(p, [Ref("self"), Ref("S")] + args, st)
    except (Limit, Bad):
        return False
    return bool(outs) and all(o.kind == "panic" for o in outs)


def rule_parser(ctx):
    F = ctx.facts()
    ctx.rule("every parselet, the climbing function and the top-level loop, interpreted against an abstract token stream and builder: the node "
             "they leave covers exactly the tokens from where they start to where reading stops, each once and in order; one node per parse; "
             "contexts and brackets balanced; builder arguments are the context's nodes in order; operands are only parsed from tokens that can "
             "start one; recursive parses are assumed to meet the contract each parselet is shown to meet")
    ctx.assume("trivia runs of up to two tokens and operator loops of up to two further rounds per path (every further round starts in the same abstract state)")
    M = Model(F)
    ps = parselets(F)
    M.panic_prefix = set()
    for trait, ty, p, ks in ps:
        if trait == "PrefixParselet" and panics_only(F, M, p, False):
            M.panic_prefix |= ks
    n = 0
    for trait, ty, p, ks in ps:
        infix = trait == "InfixParselet"
        if infix and panics_only(F, M, p, True):
            ctx.count("operator parselets that may not be called")
            n += dispatch_guard(ctx, F, M, ty, ks)
            continue
        if not infix and ks and ks <= M.panic_prefix:
            ctx.count("operand parselets that may not be called")
            continue
        if not ks and ty != "PrefixToplevelCloserParselet":
            ctx.count("parselets not in a table")
            continue
        cases = []
        if infix:
            z = {"Fake_ImplicitTimes"} & ks
            if ks - z:
                cases += [(ks - z, False, 1), (ks - z, False, 0)]
            if z:
                cases += [(z, True, 1), (z, True, 0)]
        else:
            if ty == "PrefixToplevelCloserParselet":
                ks = M.kind_table([x for x in F.fns if x.endswith("TokenKind::isCloser")][0]).get(("return", 1), set())
            cases = [(ks, False, 0)]
        for kset, zero, triv in cases:
            n += run_parselet(ctx, F, M, ty, p, infix, kset, zero, triv)
    n += run_climb(ctx, F)
    n += run_toplevel(ctx, F, M)
    n += run_implicit(ctx, F)
    ctx.floor("parser paths", n, 150)


def run_parselet(ctx, F, M, ty, p, infix, kset, zero, triv):
    label = "%s (%s)" % (ty, F.loc(p))
    I = make_interp(F, M.policy(), loop_limit=1, max_states=300000)
    st, start, args = M.state(I, infix, zero, kset, triv)
    base = 1
    st.mem["self"] = Adt("$self", None, {}, Sym("self"))
    try:
        outs = I.run(p, [Ref("self"), Ref("S")] + args, st)
    except Limit as e:
        ctx.undec("%s: state limit in %s" % (label, e))
        return 0
    except Bad as e:
        ctx.undec("%s: %s" % (label, e))
        return 0
    ctx.count("parselets")
    n = 0
    for o in outs:
        if o.kind == "cut":
            ctx.count("paths beyond the loop bound")
            continue
        if o.kind == "panic":
            ctx.count("panic paths")
            continue
        if o.kind != "return":
            continue
        n += 1
        judge(ctx, F, M, I, label, o, start, base, 1, ("G0",))
    return n


def run_climb(ctx, F):
    M = Model(F, stop_at_climb=False)
    fn = [k for k in F.fns if k.endswith("::parse_climb") and k.startswith(SESSION)]
    if not fn:
        ctx.undec("parse_climb not found")
        return 0
    I = make_interp(F, M.policy(), loop_limit=1, max_states=300000)
    st, start, args = M.state(I, True, trivia=0)
    # a finished node on top, no context of its own
    cs = ("S", (("f", F.fidx(SESSION, "context_stack")),))
    v = I.read(st, cs)
    I.write(st, cs, Adt("vec", None, {0: Adt("[]", None, {0: v.fields[0].fields[0]})}))
    n = 0
    try:
        outs = I.run(fn[0], [Ref("S"), args[0]], st)
    except (Limit, Bad) as e:
        ctx.undec("parse_climb: %s" % e)
        return 0
    label = "parse_climb (%s)" % F.loc(fn[0])
    for o in outs:
        if o.kind == "cut":
            ctx.count("paths beyond the loop bound")
            continue
        if o.kind != "return":
            ctx.count("panic paths")
            continue
        n += 1
        if not judge(ctx, F, M, I, label, o, start, 1, 1, ("G0",)):
            continue
        # the operator binds its left operand exactly when the context does not bind tighter
        ev = o.state.events()
        g = [e for e in ev if e[0] == "greater"]
        op = [e for e in ev if e[0] == "operator"]
        if len(g) == 1:
            r = I.rng(o.state, g[0][3])
            if g[0][1] != Sym("outer_prec"):
                ctx.bad("climb:context", "%s: compares with a precedence that is not the innermost context's" % label)
            elif op and (g[0][2] != op[0][2] or r != ((0, 0),)):
                ctx.bad("climb:take", "%s: takes an operator that binds less tightly than the context, or gives it another precedence" % label)
            elif op and g[0][2] != Sym(("prec", op[0][1])):
                ctx.bad("climb:prec", "%s: an operator is compared with another token's precedence" % label)
            elif not op and r != ((1, 1),):
                ctx.bad("climb:leave", "%s: leaves an operator that binds tighter than the context" % label)
            else:
                ctx.ok()
        else:
            ctx.undec("%s: precedence comparison not recognised" % label)
    return n


def run_toplevel(ctx, F, M):
    fn = [k for k in F.fns if k.rsplit("::", 1)[-1] == "do_parse"]
    if not fn:
        ctx.undec("do_parse not found")
        return 0
    base = M.policy()

    def pol(I, st, name, decl, k, args, t):
        if name in F.fns and name.startswith(SESSION) and name.endswith("::new"):
            return ("ret", I.read(st, ("S", ())))
        last = name.rsplit("::", 1)[-1]
        if name in F.fns and last == "is_quiescent" and name.startswith(SESSION):
            return ("ret", 1)
        if name in F.fns and last in ("create_parse_result", "set_quirks"):
            return ("ret", Sym(last))
        return base(I, st, name, decl, k, args, t)
    I = make_interp(F, pol, loop_limit=3, max_states=300000)
    st, start, args = M.state(I, empty=True)
    n = 0
    label = "top level (%s)" % F.loc(fn[0])
    try:
        outs = I.run(fn[0], [Ref(INPUT), Sym("B"), Sym("opts")], st)
    except (Limit, Bad) as e:
        ctx.undec("do_parse: %s" % e)
        return 0
    for o in outs:
        if o.kind != "return":
            ctx.count("paths beyond the loop bound" if o.kind == "cut" else "panic paths")
            continue
        n += 1
        o.state.mem.setdefault("S", st.mem["S"])
        if not judge(ctx, F, M, I, label, o, start, 0, 0, (), ret=False):
            continue
        key = (o.state.mem["$pos"], None, 0)
        ks = kinds_of(F, I, o.state, Adt(KIND, None, {}, Sym(("kind", key))))
        if ks == {"EndOfFile"}:
            ctx.ok()
        else:
            ctx.bad("toplevel:end", "%s: stops in front of a token that is not the end of the input" % label)
    return n


def run_implicit(ctx, F):
    """process_implicit_times answers the token itself or an empty implicit-times token in front of it"""
    n = 0
    for s, p in F.impl_methods("InfixParselet", "process_implicit_times"):
        if p not in F.fns or "test" in p.lower():
            continue
        M = Model(F)
        I = make_interp(F, M.policy(), loop_limit=3)
        st, start, args = M.state(I, False)
        st.mem["self"] = Adt("$self", None, {}, Sym("self"))
        label = "%s (%s)" % (s.split("<")[0].split("::")[-1], F.loc(p))
        try:
            outs = I.run(p, [Ref("self"), Ref("S"), args[-1]], st)
        except (Limit, Bad) as e:
            ctx.undec("%s: %s" % (label, e))
            continue
        for o in outs:
            if o.kind != "return":
                continue
            n += 1
            e = M.ext(I, o.state, o.ret)
            if e is None:
                ctx.undec("%s: token not resolved" % label)
            elif o.ret == args[-1] or (e == (P0, P0) and kinds_of(F, I, o.state, M.kind(I, o.state, o.ret)) == {"Fake_ImplicitTimes"}):
                if o.state.mem["$pos"] == P0 and o.state.mem["$stk"] == st.mem["$stk"]:
                    ctx.ok()
                else:
                    ctx.bad("implicit:%s:moves" % label, "%s: looking for an implicit multiplication consumes input" % label)
            else:
                ctx.bad("implicit:%s" % label, "%s: answers a token that is neither the next one nor an implicit multiplication in front of it" % label)
    return n


def dispatch_guard(ctx, F, M, ty, ks):
    """an operator parselet that may not be called must never be reached from climbing: its precedence is None and the
    comparison leaves such tokens alone, or implicit multiplication replaces the token"""
    n = 0
    gp = [p for s, p in F.impl_methods("InfixParselet", "getPrecedence") if s.split("<")[0].split("::")[-1] == ty and p in F.fns]
    ip = [p for s, p in F.impl_methods("InfixParselet", "process_implicit_times") if s.split("<")[0].split("::")[-1] == ty and p in F.fns]
    g = [k for k in F.fns if k.startswith("precedence::") and k.endswith("::greater")]
    if not g:
        ctx.undec("precedence comparison not found")
        return 0
    # comparison with None
    I = make_interp(F, None)
    none_left = True
    PR = "precedence::Precedence"
    for top in (Adt(OPT, "None", {}), Adt(OPT, "Some", {0: Adt(PR, None, {0: Sym("any")})})):
        s0 = State()
        s0.cons[Sym("any")] = ((0, 65535),)
        none_left = none_left and all(o.kind == "return" and o.ret == 1 for o in I.run(g[0], [top, Adt(OPT, "None", {})], s0))
    for _ in (0,):
        keep = True   # the token itself may reach the comparison
        if ip:
            I = make_interp(F, M.policy())
            st, start, args = M.state(I, False)
            st.mem["self"] = Adt("$self", None, {}, Sym("self"))
            outs = I.run(ip[0], [Ref("self"), Ref("S"), args[-1]], st)
            keep = any(o.kind == "return" and o.ret == args[-1] for o in outs)
            kept = [o.state for o in outs if o.kind == "return" and o.ret == args[-1]]
        else:
            kept = None
        n += 1
        if not keep:
            ctx.ok()
            continue
        if not gp:
            ctx.undec("%s: no precedence" % ty)
            continue
        rs = set()
        if kept is None:
            I = make_interp(F, M.policy())
            st, start, args = M.state(I, False)
            st.mem["self"] = Adt("$self", None, {}, Sym("self"))
            kept = [st]
        for s in kept:
            for o in I.run(gp[0], [Ref("self"), Ref("S")], s.fork()):
                rs.add(o.ret if o.kind == "return" else "panic")
        if rs == {Adt(OPT, "None", {})} and none_left:
            ctx.ok()
        elif all(isinstance(x, Adt) and x.variant in ("None", "Some") for x in rs):
            ctx.bad("guard:%s" % ty, "%s: climbing can call an operator parselet that always panics (precedence %s)" % (
                ty, sorted(map(str, rs))))
        else:
            ctx.undec("%s: precedence not resolved" % ty)
    return n
