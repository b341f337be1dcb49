"""The reader: peeking never consumes (P12), issues are kept once, in order and bounded (P13), checking for issues changes nothing else (P14)."""
from interp import *
from models import cvec, items_of
from rules.common import *
from rules.lexer import TOKEN, KIND, TKZ

POS = ("offset", "SrcLoc", "wasEOF")
POLICY = "source::NextPolicy"
RD = "read::Reader::<'i>::"
TK = "tokenize::tokenizer::Tokenizer"
CONSUMERS = {RD + "next_source_char", RD + "next_wolfram_char", "read::byte_decoder::ByteDecoder_nextSourceCharacter",
             "read::character_decoder::CharacterDecoder_nextWLCharacter", TK + "_nextToken", TK + "_nextWLCharacter",
             TK + "_nextToken_stringifyAsTag", TK + "_nextToken_stringifyAsFile", TK + "::<'i>::next_token"}
# peeking function -> what it looks ahead with
PEEKS = {RD + "peek_source_char": (RD + "next_source_char", "read::byte_decoder::ByteDecoder_nextSourceCharacter"),
         RD + "peek_wolfram_char": (RD + "next_wolfram_char", "read::character_decoder::CharacterDecoder_nextWLCharacter"),
         TK + "::<'i>::peek_token": (TK + "_nextToken",),
         TK + "::<'i>::peek_token_with": (TK + "_nextToken",),
         TK + "_currentWLCharacter": (TK + "_nextWLCharacter",),
         TK + "_currentToken_stringifyAsTag": (TK + "_nextToken_stringifyAsTag",),
         TK + "_currentToken_stringifyAsFile": (TK + "_nextToken_stringifyAsFile",)}


def session(F, groups=None):
    """a tokenizer whose every field is a symbol"""
    st = State()
    r = Adt(READER, None, {i: Sym(("reader", f[0])) for i, f in enumerate(F.adts[READER]["variants"][0]["fields"])})
    t = {i: Sym(("tokenizer", f[0])) for i, f in enumerate(F.adts[TKZ]["variants"][0]["fields"])}
    t[F.fidx(TKZ, "reader")] = r
    if groups is not None:
        t[F.fidx(TKZ, "GroupStack")] = cvec(groups)
    st.mem["T"] = Adt(TKZ, None, t)
    return st


def reader_ref(F, I, st, a):
    """the Reader behind a reference to it or to the tokenizer"""
    if not isinstance(a, Ref):
        return None
    o, p = a.obj, a.path
    for _ in range(4):
        v = I.read(st, (o, p))
        if isinstance(v, Ref):
            o, p = v.obj, v.path
        elif isinstance(v, Adt) and v.name == TKZ:
            p = p + (("f", F.fidx(TKZ, "reader")),)
        elif isinstance(v, Adt) and v.name == READER:
            return o, p
        else:
            return None
    return None


def peek_policy(F):
    def pol(I, st, nm, decl, k, args, t):
        if nm in CONSUMERS:
            r = reader_ref(F, I, st, args[0])
            if r is None:
                return ("opaque",)
            st.n += 1
            c = st.n
            for f in POS:
                I.write(st, (r[0], r[1] + (("f", F.fidx(READER, f)),)), Sym(("moved", f, c)))
            v = Sym(("read", c))
            st.emit("consume", (nm, v, tuple(args[1:])))
            return ("ret", v)
        return None
    return pol


def newline_bit(F):
    """the policy bit that makes newlines count as the end of an expression"""
    fn = "tokenize::token_kind::TokenKind::newline_with_policy"
    if fn not in F.fns:
        return None
    bit = None
    for b in range(8):
        I = make_interp(F, None)
        rs = {o.ret.variant if isinstance(o.ret, Adt) else None for o in I.run(fn, [Adt(POLICY, None, {0: 1 << b})], State()) if o.kind == "return"}
        if rs == {"ToplevelNewline"}:
            if bit is not None:
                return None
            bit = 1 << b
    return bit


def rule_peek(ctx):
    F = ctx.facts()
    ctx.rule("every peeking function is run on a symbolic reader with the consuming function it calls replaced by one that moves the position "
             "arbitrarily: afterwards offset, location and end-of-file mark are the ones before, and the answer is what the consuming function "
             "answered for the policy asked for (inside brackets, with newlines internal); what reading a token writes besides the position is "
             "never read back by it")
    n = 0
    nb = newline_bit(F)
    if nb is None:
        ctx.undec("newline policy bit not determined")
    for fn, want in sorted(PEEKS.items()):
        if fn not in F.fns:
            ctx.undec("%s not found" % fn)
            continue
        f = F.fns[fn]
        pi = [i for i in range(f["argc"]) if F.types[f["locals"][i + 1]].get("adt") == POLICY]
        pols = range(256) if pi else (None,)
        for groups in ([], [Sym("g0")], [Sym("g0"), Sym("g1")]):
            if fn.startswith(RD) and groups:
                continue
            for p in pols:
                n += 1
                st = session(F, groups)
                args = []
                for i in range(f["argc"]):
                    t = F.types[f["locals"][i + 1]]
                    if i == 0:
                        args.append(Ref("T", (("f", F.fidx(TKZ, "reader")),)) if fn.startswith(RD) else Ref("T"))
                    elif i in pi:
                        args.append(Adt(POLICY, None, {0: p}))
                    else:
                        st.mem["a%d" % i] = Sym(("arg", i))
                        args.append(Ref("a%d" % i) if t["k"] == "ref" else Sym(("arg", i)))
                peek_one(ctx, F, fn, want, st, args, groups, p, nb)
    hidden(ctx, F)
    ctx.floor("peeks", n, 1000)


def peek_one(ctx, F, fn, want, st, args, groups, p, nb):
    I = make_interp(F, peek_policy(F))
    before = {f: I.read(st, ("T", (("f", F.fidx(TKZ, "reader")), ("f", F.fidx(READER, f))))) for f in POS}
    short = fn.split("::")[-1]
    try:
        outs = I.run(fn, args, st)
    except Limit as e:
        ctx.undec("%s: %s" % (F.loc(fn), e))
        return
    for o in outs:
        if o.kind != "return":
            (ctx.bad if o.kind == "panic" else lambda k, m: ctx.undec(m))("peek:%s:%s" % (short, o.kind), "%s: peeking ends in %s" % (F.loc(fn), o.kind))
            continue
        ev = [e[1] for e in o.state.events() if e[0] == "consume"]
        after = {f: I.read(o.state, ("T", (("f", F.fidx(TKZ, "reader")), ("f", F.fidx(READER, f))))) for f in POS}
        moved = [f for f in POS if after[f] != before[f]]
        if moved:
            ctx.bad("peek:%s" % short, "%s: after peeking, %s of the reader is not what it was before" % (F.loc(fn), ", ".join(moved)))
            continue
        if len(ev) != 1 or ev[0][0] not in want:
            ctx.undec("%s: looks ahead in a way that is not recognised" % F.loc(fn))
            continue
        if o.ret != ev[0][1]:
            ctx.bad("peek:%s:value" % short, "%s: does not answer what it read" % F.loc(fn))
            continue
        got = [a.fields.get(0) for a in ev[0][2] if isinstance(a, Adt) and a.name == POLICY]
        if fn.endswith("peek_token") and nb is not None and got and isinstance(got[0], int):
            # the top-level policy, without the newline bit inside brackets
            ok = bool(got[0] & nb) == (not groups)
            if not ok:
                ctx.bad("peek:%s:newlines" % short, "%s: %s brackets, newlines are read as %s" % (
                    F.loc(fn), "inside" if groups else "outside", "top-level newlines" if got[0] & nb else "internal newlines"))
                continue
        elif p is not None:
            if fn.endswith("peek_token_with"):
                if nb is None:
                    continue
                w = p & ~nb if groups else p
            elif fn.endswith("currentWLCharacter"):
                # line continuations are tracked when they are consumed
                w = got[0] if got and isinstance(got[0], int) and got[0] & ~p == 0 and bin(p & ~got[0]).count("1") <= 1 else p
            else:
                w = p
            if not got or got[0] != w:
                ctx.bad("peek:%s:policy" % short, "%s: asked to peek with policy %#04x %s brackets, reads with %s" % (
                    F.loc(fn), p, "inside" if groups else "outside", hex(got[0]) if got and isinstance(got[0], int) else got))
                continue
        ctx.ok()


def field_reads(F, fn):
    """(adt, field) pairs a function reads or borrows"""
    E = effects(F)
    out = set()

    def place(pl):
        for i in range(1, len(pl)):
            chain, _ = E.place_ty(fn, pl[:i + 1])
            if chain:
                t, e, var = chain[-1]
                ty = F.types[t]
                if isinstance(e, int) and ty["k"] == "adt":
                    a = F.adts.get(ty["adt"])
                    if a and a["variants"] and e < len(a["variants"][var or 0]["fields"]):
                        out.add((ty["adt"], a["variants"][var or 0]["fields"][e][0]))

    def walk(x, write=False):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("c", "m", "p") and isinstance(v, list):
                    place(v)
                elif k != "k":
                    walk(v)
        elif isinstance(x, list):
            if x and x[0] in ("ref", "rawptr", "disc") and len(x) > 1:
                for y in x[1:]:
                    if isinstance(y, list) and y and isinstance(y[0], int):
                        place(y)
            for y in x:
                if isinstance(y, (dict, list)):
                    walk(y)
    for b in F.fns[fn]["blocks"]:
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] == "=":
                walk(s[2] if isinstance(s[2], list) else [s[2]])
        t = b["t"]
        for k, v in t.items():
            if k not in ("d", "sp", "k"):
                walk(v)
    return out


NOTES = {(READER, "fatal_issues"), (READER, "non_fatal_issues"), (READER, "unsafe_character_encoding_flag"), (TKZ, "tracked"),
         ("tokenize::tokenizer::TrackedSourceLocations", "simple_line_continuations"),
         ("tokenize::tokenizer::TrackedSourceLocations", "complex_line_continuations"),
         ("tokenize::tokenizer::TrackedSourceLocations", "embedded_newlines"),
         ("tokenize::tokenizer::TrackedSourceLocations", "embedded_tabs")}


def recorder(F, fn):
    """returns nothing and changes nothing but notes"""
    t = ret_ty(F, fn)
    return t["k"] == "tuple" and not t.get("args") and effects(F).mods(fn) <= NOTES


def hidden(ctx, F):
    E = effects(F)
    top = TK + "_nextToken"
    pos = {(READER, f) for f in POS}
    fixed = {(READER, f[0]) for f in F.adts[READER]["variants"][0]["fields"]} | {(TKZ, f[0]) for f in F.adts[TKZ]["variants"][0]["fields"]}
    fixed -= pos | NOTES | {(TKZ, "reader")}
    for root in (top, TK + "_nextToken_stringifyAsTag", TK + "_nextToken_stringifyAsFile"):
        if root not in F.fns:
            ctx.undec("%s not found" % root)
            continue
        for fn in sorted(E.reach(root)):
            if fn not in F.fns:
                continue
            ctx.count("functions that read tokens")
            w = E.direct.get(fn, set()) & fixed
            if w:
                ctx.bad("hidden:%s" % fn.split("::")[-1], "%s: reading a token changes %s, on which the next token depends" % (F.loc(fn), sorted(w)[0][1]))
                continue
            r = field_reads(F, fn) & NOTES
            if r and not recorder(F, fn):
                # borrowing a note to hand it to a recorder, or writing it, is no dependence
                r = {x for x in r if not written_only(F, fn, x)}
                if r:
                    ctx.bad("hidden:%s" % fn.split("::")[-1], "%s: reading a token depends on %s, which earlier look-ahead may have changed" % (F.loc(fn), sorted(r)[0][1]))
                    continue
            ctx.ok()


def written_only(F, fn, fld):
    """every mention of the field is a mutable borrow handed to calls whose results are not used"""
    E = effects(F)
    blocks = [b for b in F.fns[fn]["blocks"] if not b.get("cleanup")]
    tmps = set()

    def mentions(pl):
        for i in range(1, len(pl)):
            chain, _ = E.place_ty(fn, pl[:i + 1])
            t, e, var = chain[-1]
            ty = F.types[t]
            if isinstance(e, int) and ty["k"] == "adt":
                a = F.adts.get(ty["adt"])
                if a and a["variants"] and e < len(a["variants"][var or 0]["fields"]) and (ty["adt"], a["variants"][var or 0]["fields"][e][0]) == fld:
                    return True
        return False
    used = {}
    for bi, b in enumerate(blocks):
        for s in b["s"]:
            if s[0] != "=":
                continue
            for pl in places(s[2]):
                if mentions(pl):
                    if s[2][0] == "ref" and s[2][1] and len(s[1]) == 1:
                        tmps.add(s[1][0])
                    else:
                        return False
                used.setdefault(pl[0], []).append(("s", s))
        for k, v in b["t"].items():
            if k in ("d", "l"):
                continue
            for pl in places(v):
                if mentions(pl):
                    return False
                used.setdefault(pl[0], []).append(("t", b["t"]))
    seen = set()
    while tmps - seen:
        x = (tmps - seen).pop()
        seen.add(x)
        for kind, w in used.get(x, []):
            if kind == "s":
                if len(w[1]) == 1 and w[2][0] in ("ref", "use"):
                    tmps.add(w[1][0])
                else:
                    return False
            elif w["k"] == "call":
                if used.get(w["d"][0]) or w["d"][0] == 0:
                    return False
            else:
                return False
    return True


def places(x):
    """places read in an rvalue, operand or terminator part"""
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("c", "m", "p") and isinstance(v, list) and v and isinstance(v[0], int):
                out.append(v)
            elif k != "k":
                out += places(v)
    elif isinstance(x, list):
        if x and x[0] in ("ref", "rawptr", "disc"):
            out += [y for y in x[1:] if isinstance(y, list) and y and isinstance(y[0], int)]
        for y in x:
            if isinstance(y, (dict, list)):
                out += places(y)
    return out


# ---------------------------------------------------------------- issues (P13)
ISSUE = "issue::Issue"
SEV = "issue::Severity"
ISSUE_EQ = ("make_sym", "tag", "msg", "sev", "src", "val", "actions", "additional_descriptions")


def an_issue(F, i, sev):
    return Adt(ISSUE, None, {j: Adt(SEV, sev, {}) if f[0] == "sev" else Str("%s%d" % (f[0], i)) if f[0] == "msg" else Adt("$v", None, {0: i})
                             for j, f in enumerate(F.adts[ISSUE]["variants"][0]["fields"])})


def rule_issues(ctx):
    F = ctx.facts()
    ctx.rule("addIssue is run on issue lists of every length up to twelve and every severity: a new issue is appended to the list of its severity "
             "class, one that is already there is not, and an eleventh fatal one is not; nothing else writes the lists; two issues are the same "
             "only if symbol, tag, message, severity, source, confidence, actions and descriptions are all the same")
    fn = RD + "addIssue"
    if fn not in F.fns:
        ctx.undec("addIssue not found")
        return
    n = 0
    sevs = [v["name"] for v in F.adts[SEV]["variants"]]
    for sev in sevs:
        for k in range(13):
            if sev == "Fatal" and k > 10:
                continue
            for dup in [None] + list(range(k)):
                n += 1
                mine = "fatal_issues" if sev == "Fatal" else "non_fatal_issues"
                other = "non_fatal_issues" if sev == "Fatal" else "fatal_issues"
                have = [an_issue(F, i, sev) for i in range(k)]
                # the other list holds issues that differ only in severity
                oth = [an_issue(F, 90 + i, "Warning" if sev == "Fatal" else "Fatal") for i in range(2)]
                st = session(F)
                rp = ("f", F.fidx(TKZ, "reader"))
                I = make_interp(F, issue_policy, loop_limit=16)
                I.write(st, ("T", (rp, ("f", F.fidx(READER, mine)))), cvec(have))
                I.write(st, ("T", (rp, ("f", F.fidx(READER, other)))), cvec(oth))
                new = an_issue(F, 50 if dup is None else dup, sev)
                want = have if dup is not None or sev == "Fatal" and k >= 10 else have + [new]
                what = "a %s issue %s added to %d" % (sev, "already present" if dup is not None else "not yet present", k)
                try:
                    outs = I.run(fn, [Ref("T", (rp,)), new], st)
                except Limit as e:
                    ctx.undec("%s: %s" % (F.loc(fn), e))
                    continue
                for o in outs:
                    got = items_of(I, o.state, I.read(o.state, ("T", (rp, ("f", F.fidx(READER, mine))))))
                    got2 = items_of(I, o.state, I.read(o.state, ("T", (rp, ("f", F.fidx(READER, other))))))
                    if o.kind == "return" and got == want and got2 == oth:
                        ctx.ok()
                    elif o.kind == "panic":
                        ctx.bad("issues:panic", "%s: %s: panics" % (F.loc(fn), what))
                    elif o.kind != "return" or got is None or got2 is None:
                        ctx.undec("%s: %s: not resolved" % (F.loc(fn), what))
                    elif got2 != oth:
                        ctx.bad("issues:class", "%s: %s: the other list changes" % (F.loc(fn), what))
                    else:
                        ctx.bad("issues:list", "%s: %s: %d issues afterwards, expected %d%s" % (
                            F.loc(fn), what, len(got), len(want), "" if len(got) != len(want) else " in order of arrival"))
    issue_equality(ctx, F)
    writers(ctx, F, fn)
    ctx.floor("issue histories", n, 300)


def issue_policy(I, st, nm, decl, k, args, t):
    if (decl or nm).endswith("cmp::PartialEq::eq") or (decl or nm).endswith("cmp::PartialEq::ne"):
        v = []
        for a in args:
            while isinstance(a, Ref):
                a = I.read(st, (a.obj, a.path))
            v.append(a)
        if all(isinstance(x, Adt) and x.name == ISSUE for x in v):
            return ("ret", int((v[0] == v[1]) == (decl or nm).endswith("eq")))
    return None


def issue_equality(ctx, F):
    fn = [k for k in F.fns if k.startswith("<%s as core::cmp::PartialEq" % ISSUE) and k.endswith("::eq")]
    if not fn:
        ctx.undec("equality of issues not found")
        return
    fn = fn[0]
    fs = [f[0] for f in F.adts[ISSUE]["variants"][0]["fields"]]

    def pol(I, st, nm, decl, k, args, t):
        d = decl or nm
        if d.endswith("cmp::PartialEq::eq") or d.endswith("cmp::PartialEq::ne"):
            v = []
            for a in args:
                while isinstance(a, Ref) and isinstance(I.read(st, (a.obj, a.path)), Ref):
                    a = I.read(st, (a.obj, a.path))
                v.append(a)
            if all(isinstance(a, Ref) and a.path for a in v):
                x, y = (I.read(st, (a.obj, a.path)) for a in v)
                return ("ret", int((x == y) == d.endswith("eq")))
        return None
    for diff in (None,) + ISSUE_EQ:
        if diff is not None and diff not in fs:
            ctx.undec("issues have no field %s" % diff)
            continue
        st = State()
        st.mem["A"] = Adt(ISSUE, None, {i: 1 for i in range(len(fs))})
        st.mem["B"] = Adt(ISSUE, None, {i: 2 if f == diff else 1 for i, f in enumerate(fs)})
        I = make_interp(F, pol)
        rs = {(o.kind, o.ret) for o in I.run(fn, [Ref("A"), Ref("B")], st)}
        if rs == {("return", int(diff is None))}:
            ctx.ok()
        elif all(k == "return" and isinstance(r, int) for k, r in rs):
            ctx.bad("issues:eq:%s" % diff, "%s: issues that differ %s" % (F.loc(fn), "in nothing are told apart" if diff is None else "in %s are taken for the same" % diff))
        else:
            ctx.undec("%s: not resolved" % F.loc(fn))


def writers(ctx, F, add):
    E = effects(F)
    flds = {(READER, "fatal_issues"), (READER, "non_fatal_issues")}
    W = {k for k in F.fns if E.direct.get(k, set()) & flds}
    callers = {}
    for k, cs in E.calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    ctx.count("functions that write issue lists", len(W))
    ok = {add}
    while True:
        more = {w for w in W if w not in ok and callers.get(w) and callers[w] <= ok}
        if not more:
            break
        ok |= more
    from rules.api import ROOTS
    used = set().union(*[E.reach(r) for r in ROOTS if r in F.fns])
    for w in sorted(W):
        if w in ok:
            ctx.ok()
        elif w not in used:
            ctx.count("writers no entry point reaches")
        else:
            ctx.bad("issues:writer:%s" % w.split("::")[-1], "%s: changes the recorded issues other than by adding one" % F.loc(w))


# ---------------------------------------------------------------- checking for issues changes nothing else (P14)
FLAGS = {(READER, "check_issues"), (READER, "compute_oob")}
STATE_ADTS = {READER, TKZ, "read::SourceManager", LOC, LC}
# functions whose answers the rest of the parser sees
OBSERVED = [RD + "next_source_char", RD + "next_wolfram_char", RD + "peek_source_char", RD + "peek_wolfram_char", TK + "_nextToken",
            TK + "_nextToken_stringifyAsTag", TK + "_nextToken_stringifyAsFile", TK + "::<'i>::peek_token", TK + "::<'i>::peek_token_with",
            TK + "_currentWLCharacter", TK + "_nextWLCharacter", RD + "buffer", RD + "mark"]


class Flow:
    """information flow from the checking options, explicit and implicit, through one function at a time"""

    def __init__(self, F):
        self.F = F
        self.E = effects(F)
        self.sums = {}     # (fn, tainted params) -> (returns tainted, tainted through pointers)
        self.bad = {}
        self.regions = 0
        self.fns = set()

    def harmful(self, fn):
        """state other than notes that a function may change"""
        if fn in PEEKS or fn not in self.F.fns:
            return set()
        out = set()
        seen = set()
        todo = [fn]
        while todo:
            x = todo.pop()
            if x in seen or x in PEEKS:
                continue
            seen.add(x)
            for m in self.E.direct.get(x, ()):
                if m[0] in STATE_ADTS and m not in NOTES and m != (TKZ, "reader"):
                    out.add(m)
            todo += list(self.E.calls.get(x, ()))
        return out

    def fields(self, fn, pl):
        out = []
        F = self.F
        for i in range(1, len(pl)):
            chain, _ = self.E.place_ty(fn, pl[:i + 1])
            t, e, var = chain[-1]
            ty = F.types[t]
            if isinstance(e, int) and ty["k"] == "adt":
                a = F.adts.get(ty["adt"])
                if a and a["variants"] and e < len(a["variants"][var or 0]["fields"]):
                    out.append((ty["adt"], a["variants"][var or 0]["fields"][e][0]))
        return out

    def summary(self, fn, params):
        key = (fn, params)
        if key in self.sums:
            return self.sums[key]
        self.sums[key] = False
        for _ in range(4):
            r = self.analyse(fn, params)
            if r == self.sums[key]:
                break
            self.sums[key] = r
        return self.sums[key]

    def analyse(self, fn, params):
        F, E = self.F, self.E
        self.fns.add(fn)
        f = F.fns[fn]
        B = f["blocks"]
        nb = len(B)
        live = [i for i in range(nb) if not B[i].get("cleanup")]
        succ = {i: [s for s in (const_arms(B, B[i]["t"]) if B[i]["t"]["k"] == "switch" else succs(B[i]["t"])) if s is not None and not B[s].get("cleanup")]
                for i in live}
        reach, todo = set(), [0]
        while todo:
            x = todo.pop()
            if x not in reach:
                reach.add(x)
                todo += succ[x]
        live = [i for i in live if i in reach]
        ipd = postdoms(live, succ, [i for i in live if B[i]["t"]["k"] == "return"])
        taint = set(params)
        refs = {}            # local -> base place it borrows
        for i in live:
            for s in B[i]["s"]:
                if s[0] == "=" and len(s[1]) == 1 and s[2][0] in ("ref", "rawptr"):
                    if s[2][0] == "rawptr" or s[2][1]:
                        refs.setdefault(s[1][0], []).append(s[2][2] if s[2][0] == "ref" else s[2][1])
        region = set()
        regs = {}            # switch -> blocks it controls
        viol = []
        livein = liveness(B, live, succ)

        same = {}

        def escapes(l, i):
            """is a local assigned in a controlled block still needed where the branches meet, with a value that depends on the branch?"""
            for w, r in regs.items():
                if i in r and l in (livein[ipd[w]] if ipd.get(w) is not None else {0}):
                    key = (w, l, len(r))
                    if key not in same:
                        same[key] = self.same_value(B, succ, live, w, r, ipd.get(w), l)
                    if not same[key]:
                        return True
            return False

        def tainted_place(pl):
            return pl[0] in taint or any(x in FLAGS for x in self.fields(fn, pl))

        pos = {}             # block -> (line, what) where the position moves under a condition

        def harm(i, line, what, position):
            if position:
                pos.setdefault(i, (line, what))
            else:
                viol.append((line, what))

        def bases(l, seen=()):
            """locals reachable through a borrow held in l"""
            out = set()
            for pl in refs.get(l, []):
                if "*" not in pl:
                    out.add(pl[0])
                elif pl[0] not in seen:
                    out |= bases(pl[0], seen + (l,))
            return out
        while True:
            before = (len(taint), len(region), len(regs))
            for i in live:
                inr = i in region
                for s in B[i]["s"]:
                    if s[0] != "=":
                        continue
                    pl, rv = s[1], s[2]
                    # a borrow is not a read
                    ps = places(rv) if rv[0] not in ("ref", "rawptr") else []
                    if rv[0] in ("ref", "rawptr"):
                        src = rv[2] if rv[0] == "ref" else rv[1]
                        if tainted_place(src):
                            taint.add(pl[0])
                        elif inr and not (rv[0] == "ref" and not rv[1]):
                            pass
                    if inr or any(tainted_place(p) for p in ps):
                        if "*" in pl:
                            fl = self.fields(fn, pl)
                            b = bases(pl[0])
                            if any(x in NOTES for x in fl) or fl and fl[-1][0].startswith("core::mem::"):
                                pass
                            elif b:
                                taint |= b
                            else:
                                harm(i, s[-1] if isinstance(s[-1], int) else None, fl[-1][1] if fl else "state",
                                     inr and not any(tainted_place(p) for p in ps) and bool(fl) and fl[-1] in POSITION)
                        elif any(tainted_place(p) for p in ps) or escapes(pl[0], i):
                            taint.add(pl[0])
                t = B[i]["t"]
                if t["k"] == "call":
                    k = t["f"].get("k") or {}
                    nm = k.get("res") or k.get("fn") or "<ptr>"
                    argt = [any(tainted_place(p) for p in places(a)) for a in t["a"]]
                    ret = inr and ("*" in t["d"] or escapes(t["d"][0], i))
                    # references to locals handed over inside a region may be written there
                    if inr or any(argt):
                        for a in t["a"]:
                            for p in places(a):
                                for b in bases(p[0]):
                                    if any(argt) or escapes(b, i):
                                        taint.add(b)
                                if inr and p[0] in refs:
                                    for pl in refs[p[0]]:
                                        fl = self.fields(fn, pl)
                                        if "*" in pl and fl and fl[-1][0] in STATE_ADTS and not any(x in NOTES for x in fl) and nm not in F.fns:
                                            viol.append((t.get("l"), fl[-1][1]))
                    nms = [nm] if nm in F.fns else sorted(E.targets(fn, t)) if nm == "<ptr>" else []
                    for nm in nms:
                        if inr:
                            h = self.harmful(nm)
                            if h:
                                harm(i, t.get("l"), "%s (through %s)" % (sorted(h)[0][1], nm.split("::")[-1]), h <= POSITION)
                        if nm in PEEKS:
                            if any(argt):
                                ret = True
                            continue
                        tp = frozenset(j + 1 for j, x in enumerate(argt) if x)
                        if recorder(F, nm):
                            pass
                        elif self.relevant(nm) or tp:
                            if self.summary(nm, tp):
                                ret = True
                            if tp and not self.relevant(nm):
                                ret = True
                    if not nms and any(argt):
                        ret = True
                    if ret:
                        if "*" in t["d"]:
                            fl = self.fields(fn, t["d"])
                            if not any(x in NOTES for x in fl):
                                viol.append((t.get("l"), fl[-1][1] if fl else "state"))
                        else:
                            taint.add(t["d"][0])
                if t["k"] == "switch" and len(succ[i]) > 1 and any(tainted_place(p) for p in places(t["op"])):
                    stop = ipd.get(i)
                    todo = list(succ[i])
                    seen = set()
                    while todo:
                        x = todo.pop()
                        if x == stop or x in seen:
                            continue
                        seen.add(x)
                        todo += succ[x]
                    # blocks that cannot return (failing assertions) decide nothing
                    regs[i] = seen
                    region |= seen
            if (len(taint), len(region), len(regs)) == before:
                break
            viol = []
            pos.clear()
        if region:
            self.regions += 1
        for w, r in regs.items():
            hs = {i: x for i, x in pos.items() if i in r}
            if hs and not self.settled(fn, B, succ, r, ipd.get(w), hs, refs):
                viol += [x for x in hs.values()]
        for l, w in viol:
            self.bad.setdefault((fn, w), l)
        return 0 in taint

    def same_value(self, B, succ, live, w, r, stop, l):
        """do all definitions of l that reach the meeting point compute the same expression?"""
        ends = [stop] if stop is not None else [i for i in r if B[i]["t"]["k"] == "return"]
        # definitions (last one of each block), call results count at the block's end
        last = {}
        alldefs = {}
        for i in live:
            for s in B[i]["s"]:
                if s[0] == "=":
                    alldefs.setdefault(s[1][0], []).append((i, s[1], s[2]))
                    if s[1][0] == l and i in r:
                        last[i] = (s[1], s[2])
            t = B[i]["t"]
            if t["k"] == "call":
                alldefs.setdefault(t["d"][0], []).append((i, t["d"], t))
                if t["d"][0] == l and i in r:
                    last[i] = (t["d"], t)
        found = []
        seen, todo = set(), [(s, None) for s in succ[w]]
        while todo:
            i, d = todo.pop()
            if (i, d) in seen:
                continue
            seen.add((i, d))
            if stop is not None and i == stop:
                found.append(d)
                continue
            if i in last:
                d = i
            if stop is None and i in ends:
                found.append(d)
                continue
            if i not in r:
                continue
            todo += [(s, d) for s in succ[i]]
        if len(set(found)) <= 1:
            return False if not found else None in found or len(set(found)) == 1 and self.describe(B, alldefs, r, last[found[0]], 0) is not None
        if None in found:
            return False
        ds = {self.describe(B, alldefs, r, last[d], 0) for d in set(found)}
        return len(ds) == 1 and None not in ds

    def describe(self, B, defs, r, d, depth):
        """canonical expression of a definition, None when it is not a pure function of what the region leaves alone"""
        pl, rv = d
        if len(pl) != 1 or depth > 12:
            return None

        def loc(p):
            if not isinstance(p, list) or not p:
                return None
            ds = defs.get(p[0], [])
            if any(isinstance(x, dict) or isinstance(x, list) and x and x[0] == "i" for x in p[1:]):
                return None
            if not any(x[0] in r for x in ds):
                return ("local", p[0], tuple(map(str, p[1:])))
            if len(ds) == 1 and len(ds[0][1]) == 1:
                x = self.describe(B, defs, r, (ds[0][1], ds[0][2]), depth + 1)
                return None if x is None else (x, tuple(map(str, p[1:])))
            return None

        def walk(x):
            if isinstance(x, dict):
                if "k" in x and len(x) == 1:
                    return ("const", repr(x["k"]))
                for key in ("m", "c"):
                    if key in x:
                        return loc(x[key])
                return ("dict",) + tuple((k2, walk(v)) for k2, v in sorted(x.items()))
            if isinstance(x, list):
                l = [walk(y) for y in x]
                return None if any(y is None for y in l) else tuple(l)
            return ("lit", x)
        if isinstance(rv, dict):
            k = rv["f"].get("k") or {}
            nm = k.get("res") or k.get("fn")
            if nm is None or nm in self.F.fns and self.harmful(nm):
                return None
            a = walk(rv["a"])
            return None if a is None else ("call", nm, a)
        if rv[0] in ("ref", "rawptr"):
            p = rv[2] if rv[0] == "ref" else rv[1]
            x = loc(p)
            return None if x is None else ("ref", x)
        x = walk(rv[1:])
        return None if x is None or deepnone(x) else (rv[0],) + x

    def settled(self, fn, B, succ, r, stop, hs, refs):
        """do moves of the position under a condition leave it as it was, or is it set anew before anyone looks?"""
        if stop is not None and not self.pos_live(fn, B, succ, stop):
            return True
        # mark ... seek(mark) around every move
        marks, seeks = {}, {}
        for i in r:
            t = B[i]["t"]
            nm = callee(t)
            if nm == RD + "mark":
                marks[i] = t["d"][0]
            elif nm == RD + "seek":
                seeks[i] = [p[0] for p in places(t["a"][1])]
        copies = {}
        for b in B:
            for s in b["s"]:
                if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use":
                    for p in places(s[2]):
                        copies.setdefault(s[1][0], set()).add(p[0])
        for bm, l in marks.items():
            if sum(1 for b in B if b["t"]["k"] == "call" and b["t"]["d"] == [l]) != 1:
                continue

            def is_mark(x, seen=()):
                return x == l or x not in seen and any(is_mark(y, seen + (x,)) for y in copies.get(x, ()))
            S = {i for i, ls in seeks.items() if any(is_mark(x) for x in ls)}
            moves = set(hs) - S
            ok = bool(S)
            for h in moves:
                seen, todo = set(), list(succ[h])
                while todo:
                    x = todo.pop()
                    if x in seen or x in S:
                        continue
                    if x not in r or x == stop or x == bm:
                        ok = False
                        break
                    seen.add(x)
                    todo += succ[x]
            if ok:
                return True
        return False

    def pos_live(self, fn, B, succ, start):
        """may the position be looked at from here before it is set by seek?"""
        seen, todo = set(), [start]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for s in B[i]["s"]:
                if s[0] == "=" and any(x in POSITION for p in places(s[2]) for x in self.fields(fn, p)):
                    return True
            t = B[i]["t"]
            if t["k"] == "return":
                return True
            if t["k"] == "call":
                nm = callee(t)
                if nm == RD + "seek":
                    continue
                if nm not in self.F.fns and nm != "<ptr>":
                    pass
                elif nm in self.F.fns and (recorder(self.F, nm) or not (reads_below(self, nm) & POSITION)):
                    pass
                else:
                    return True
            todo += succ[i]
        return False

    def relevant(self, fn):
        """may the checking options be looked at below this function?"""
        r = getattr(self, "_rel", None)
        if r is None:
            direct = {k for k in self.F.fns if field_reads(self.F, k) & FLAGS}
            rev = {}
            for k, cs in self.E.calls.items():
                for c in cs:
                    rev.setdefault(c, set()).add(k)
            r = set()
            todo = list(direct)
            while todo:
                x = todo.pop()
                if x in r:
                    continue
                r.add(x)
                todo += list(rev.get(x, ()))
            self._rel = r
        return fn in r


def deepnone(x):
    return x is None or isinstance(x, tuple) and any(deepnone(y) for y in x)


POSITION = {(READER, f) for f in POS} | {("read::SourceManager", "loc"), (LC, "0"), (LC, "1"), (LOC, "0")}


def callee(t):
    k = (t.get("f") or {}).get("k") or {} if t["k"] == "call" else {}
    return k.get("res") or k.get("fn") or ("<ptr>" if t["k"] == "call" else None)


def reads_below(A, fn):
    c = A.__dict__.setdefault("_reads", {})
    if fn not in c:
        c[fn] = set().union(*[field_reads(A.F, x) for x in A.E.reach(fn) if x in A.F.fns])
    return c[fn]


def liveness(B, nodes, succ):
    """locals needed at the start of each block"""
    gen, kill = {}, {}
    for i in nodes:
        g, k = set(), set()
        t = B[i]["t"]
        steps = [(s[1], places(s[2])) for s in B[i]["s"] if s[0] == "="]
        ps = [p for kk, v in t.items() if kk not in ("d", "l") for p in places(v)]
        if t["k"] == "return":
            ps.append([0])
        if t["k"] == "drop":
            ps = []
        steps.append((t.get("d"), ps))
        for d, ps in steps:
            for p in ps:
                if p[0] not in k:
                    g.add(p[0])
            if d:
                if len(d) == 1:
                    k.add(d[0])
                elif d[0] not in k and "*" in d:
                    g.add(d[0])
        gen[i], kill[i] = g, k
    out = {i: set(gen[i]) for i in nodes}
    ch = True
    while ch:
        ch = False
        for i in reversed(nodes):
            n = gen[i] | (set().union(*[out[s] for s in succ[i]]) - kill[i] if succ[i] else set())
            if n != out[i]:
                out[i] = n
                ch = True
    return out


def const_arms(B, t):
    """successors of a switch, leaving out arms a constant rules out"""
    op = t["op"]
    v = None
    pl = op.get("m") or op.get("c")
    if isinstance(pl, list) and len(pl) == 1:
        defs = [s[2] for b in B for s in b["s"] if s[0] == "=" and s[1] == pl] + [b["t"] for b in B if b["t"]["k"] == "call" and b["t"]["d"] == pl]
        if len(defs) == 1 and isinstance(defs[0], list) and defs[0][0] == "use" and isinstance(defs[0][1], dict) and "k" in defs[0][1]:
            v = defs[0][1]["k"].get("v")
    elif "k" in op:
        v = op["k"].get("v")
    if isinstance(v, (bool, int)):
        for val, to in t["arms"]:
            if val == int(v):
                return [to]
        return [t.get("else")]
    return [a[1] for a in t["arms"]] + [t.get("else")]


def succs(t):
    k = t["k"]
    if k == "switch":
        return [a[1] for a in t["arms"]] + [t.get("else")]
    return [t.get("to")] if t.get("to") is not None else []


def postdoms(nodes, succ, exits):
    """immediate postdominators towards the returning exits; blocks that cannot return are left out"""
    pred = {n: [] for n in nodes}
    for n in nodes:
        for s in succ[n]:
            pred[s].append(n)
    can = set()
    todo = list(exits)
    while todo:
        x = todo.pop()
        if x not in can:
            can.add(x)
            todo += pred[x]
    X = -1
    pd = {n: None for n in can}
    order = []
    seen = set()

    def dfs(x):
        stack = [(x, iter(pred[x]))]
        seen.add(x)
        while stack:
            y, it = stack[-1]
            for z in it:
                if z in can and z not in seen:
                    seen.add(z)
                    stack.append((z, iter(pred[z])))
                    break
            else:
                order.append(y)
                stack.pop()
    for e in exits:
        if e not in seen:
            dfs(e)
    rpo = list(reversed(order))
    num = {n: i for i, n in enumerate(rpo)}
    num[X] = -1
    idom = {X: X}

    def meet(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for n in rpo:
            ss = [s for s in succ[n] if s in can] + ([X] if n in exits else [])
            ss = [s for s in ss if s in idom]
            if not ss:
                continue
            m = ss[0]
            for s in ss[1:]:
                m = meet(m, s)
            if idom.get(n) != m:
                idom[n] = m
                ch = True
    return {n: (d if d != X else None) for n, d in idom.items() if n != X}


def rule_flow(ctx):
    F = ctx.facts()
    ctx.rule("information-flow analysis of the reader and tokenizer: nothing that depends on check_issues or compute_oob, by value or by control, "
             "reaches the reading position, any other state than recorded issues and tracked locations, or an answer of the reading functions")
    A = Flow(F)
    roots = [r for r in OBSERVED if r in F.fns]
    for r in roots:
        for fn in sorted(effects(F).reach(r)):
            if fn in F.fns and A.relevant(fn) and fn not in PEEKS:
                A.summary(fn, frozenset())
    for r in roots:
        if r in PEEKS:
            t = any(A.summary(x, frozenset()) for x in PEEKS[r] if x in F.fns)
        else:
            t = A.summary(r, frozenset())
        if t:
            ctx.bad("flow:%s" % r.split("::")[-1], "%s: the answer depends on whether issues are checked" % F.loc(r))
        else:
            ctx.ok()
    for (fn, w), l in sorted(A.bad.items()):
        loc = F.loc(fn)
        ctx.bad("flow:%s:%s" % (fn.split("::")[-1], w), "%s%s: %s changes depending on whether issues are checked" % (loc.rsplit(":", 1)[0] if l else loc, ":%d" % l if l else "", w))
    bad = {fn for fn, w in A.bad}
    for fn in sorted(A.fns - bad):
        ctx.ok()
    ctx.count("functions analysed", len(A.fns))
    ctx.count("functions with guarded regions", A.regions)
    ctx.floor("guarded regions", A.regions, 10)
