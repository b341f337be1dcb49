"""Entry points deliver the whole result (P19); options and quirks reach what they control and nothing else (P21)."""
from interp import *
from models import cvec, items_of
from rules.common import *
from rules.tree import fn_of
import models as M

PR = "ParseResult"
OPTS = "ParseOptions"
QS = "quirks::QuirkSettings"
TOKENIZER = "tokenize::tokenizer::Tokenizer"
DUMMY = "core::option::Option"


def last(n):
    return (n or "").rsplit("::", 1)[-1]


def by_last(F, name):
    r = [k for k in F.fns if last(k) == name and "{closure" not in k]
    return r[0] if len(r) == 1 else name if name in F.fns else None


def deep(I, st, v):
    n = 0
    while isinstance(v, Ref) and n < 20:
        v = I.read(st, (v.obj, v.path))
        n += 1
    return v


def same_input(I, st, v):
    """the caller's input: the reference itself or what it points to"""
    return v == Ref("input") or deep(I, st, v) == Sym("INPUT")


def pres(F, syntax):
    return Adt(PR, None, {F.fidx(PR, f[0]): (syntax if f[0] == "syntax" else Sym(("result", f[0]))) for f in F.adts[PR]["variants"][0]["fields"]})


def fields(F, adt):
    return [f[0] for f in F.adts[adt]["variants"][0]["fields"]]


def opts_value(F):
    f = {}
    for n in fields(F, OPTS):
        f[F.fidx(OPTS, n)] = Sym(("opt", n))
    return Adt(OPTS, None, f)


def base_state(F):
    st = State()
    st.mem["opts"] = opts_value(F)
    st.mem["input"] = Sym("INPUT")
    return st


def entry_policy(F, items, mode):
    """cut at the functions the entry points delegate to"""
    def pol(I, st, nm, decl, k, args, t):
        s = last(decl or nm)
        if s == "as_bytes" and args and isinstance(args[0], Ref) and args[0].obj == "input":
            return ("ret", args[0])
        if s == "parse" and nm in F.fns and len(args) == 2:
            st.emit("parse", same_input(I, st, args[0]), deep(I, st, args[1]) == opts_value(F))
            return ("ret", pres(F, Adt("NodeSeq", None, {0: cvec([Sym(("node", i)) for i in range(items)])})))
        if s == "aggregate_cst_seq":
            v = deep(I, st, args[0])
            l = items_of(I, st, v.fields.get(0)) if isinstance(v, Adt) else None
            if l is None:
                return None
            st.emit("agg")
            # aggregation may remove nodes: here it keeps them, under new names
            return ("ret", Adt("NodeSeq", None, {0: cvec([Sym(("agg", deep(I, st, x))) for x in l])}))
        if s == "aggregate_cst" and args:
            return ("ret", M.some(Sym(("agg", deep(I, st, args[0])))))
        if s in ("try_into", "try_from") and args:
            l = items_of(I, st, args[0])
            want = [g for g in (I.F.types[x]["s"] for x in k.get("ga", [])) if g.startswith("[") and ";" in g]
            if l is None or len(want) != 1:
                return None
            n = int(want[0].rsplit(";", 1)[1].strip(" ]"))
            return ("ret", M.ok(Adt("[]", None, dict(enumerate(l)))) if len(l) == n else M.err(args[0]))
        if s == "abstract_cst" and len(args) == 2:
            return ("ret", Sym(("abs", deep(I, st, args[0]), deep(I, st, args[1]))))
        return None
    return pol


def rule_results(ctx):
    F = ctx.facts()
    ctx.rule("each public entry point hands the caller's input and options once to the parser it stands for and gives back its syntax, its "
             "encoding flag, its issues and its tracked locations unchanged; abstraction is applied to every aggregated node in order with the "
             "caller's quirks; single-expression entry points give exactly that expression; iterators end exactly at the end of the input")
    n = 0
    for name in ("parse_cst_seq", "parse_bytes_cst_seq", "parse_cst", "parse_bytes_cst", "parse_ast_seq", "parse_bytes_ast_seq", "parse_ast", "parse_bytes_ast"):
        n += check_entry(ctx, F, name)
    n += check_parse(ctx, F)
    n += check_create(ctx, F)
    n += check_token_entry(ctx, F)
    n += check_tokenize(ctx, F)
    n += check_safe(ctx, F)
    n += check_iter(ctx, F)
    ctx.floor("entry points", n, 12)


def run(ctx, F, fn, args, st, pol, what, **kw):
    I = make_interp(F, pol, loop_limit=kw.pop("loop_limit", 6))
    I.max_rec = 4
    try:
        return I, [o for o in I.run(fn, args, st) if o.kind != "infeasible"]
    except Limit as e:
        ctx.undec("%s: %s" % (what, e))
        return I, None


def check_entry(ctx, F, name):
    fn = by_last(F, name)
    if not fn:
        ctx.undec("%s not found" % name)
        return 0
    ast, seq = "ast" in name, name.endswith("_seq")
    for k in (0, 1, 2, 3):
        I, outs = run(ctx, F, fn, [Ref("input"), Ref("opts")], base_state(F), entry_policy(F, k, name), name)
        if outs is None:
            continue
        nodes = [Sym(("node", i)) for i in range(k)]
        if ast:
            nodes = [Sym(("abs", Sym(("agg", x)), Sym(("opt", "quirk_settings")))) for x in nodes]
        bad = und = None
        for o in outs:
            ev = [e for e in o.state.events() if e[0] == "parse"]
            if o.kind == "panic":
                if seq or k == 1:
                    bad = bad or "panics on %d expressions" % k
                continue
            if o.kind != "return":
                und = und or o.why
                continue
            if ev != [("parse", True, True)]:
                bad = bad or ("parses %d times" % len(ev) if len(ev) != 1 else "does not pass on its input and options")
                continue
            if not seq and k != 1:
                bad = bad or "gives a result for %d expressions" % k
                continue
            r = deep(I, o.state, o.ret)
            if not isinstance(r, Adt) or r.name != PR:
                und = und or "result not known"
                continue
            for f in fields(F, PR):
                v = deep(I, o.state, r.fields.get(F.fidx(PR, f)))
                if f == "syntax":
                    if seq:
                        l = items_of(I, o.state, v.fields.get(0)) if isinstance(v, Adt) else None
                        if l is None:
                            und = und or "syntax not known"
                        elif [deep(I, o.state, x) for x in l] != nodes:
                            bad = bad or "gives back other nodes than the parser built"
                    elif v != nodes[0]:
                        if isinstance(v, Sym) and v.id[0] in ("node", "agg", "abs"):
                            bad = bad or "gives back another node than the parser built"
                        else:
                            und = und or "syntax not known"
                elif v != Sym(("result", f)):
                    bad = bad or "changes %s of the result" % f
        verdict(ctx, F, fn, "entry:%s:%d" % (name, k), name, bad, und)
    return 1


def verdict(ctx, F, fn, key, name, bad, und):
    if bad and not und:
        ctx.bad(key, "%s: %s %s" % (F.loc(fn), name, bad))
    elif und:
        ctx.undec("%s: %s" % (name, und))
    else:
        ctx.ok()


def check_parse(ctx, F):
    """parse::parse: builder, parser and finish are chained and the result is the tokenizer's"""
    fn = by_last(F, "parse") or ("parse::parse" if "parse::parse" in F.fns else None)
    if not fn:
        ctx.undec("parse::parse not found")
        return 0

    def pol(I, st, nm, decl, k, args, t):
        s = last(decl or nm)
        if s == "new_builder":
            return ("ret", Sym("B0"))
        if s == "do_parse" and len(args) == 3:
            st.emit("do_parse", same_input(I, st, args[0]), deep(I, st, args[1]) == Sym("B0"), deep(I, st, args[2]) == opts_value(F))
            return ("ret", Adt("()", None, {0: Sym("B1"), 1: pres(F, UNIT)}))
        if s == "finish" and len(args) == 3:
            st.emit("finish", deep(I, st, args[0]) == Sym("B1"), same_input(I, st, args[1]), deep(I, st, args[2]) == opts_value(F))
            return ("ret", Sym("SYNTAX"))
        return None
    I, outs = run(ctx, F, fn, [Ref("input"), Ref("opts")], base_state(F), pol, "parse")
    if outs is None:
        return 0
    bad = und = None
    for o in outs:
        ev = [e for e in o.state.events() if e[0] in ("do_parse", "finish")]
        if o.kind != "return":
            bad = bad or "does not return"
            continue
        if not ev:
            und = und or "parser not recognised"
            continue
        if ev != [("do_parse", True, True, True), ("finish", True, True, True)]:
            bad = bad or "does not run the parser once with its input and options and then finish the tree it built"
            continue
        r = deep(I, o.state, o.ret)
        for f in fields(F, PR):
            v = deep(I, o.state, r.fields.get(F.fidx(PR, f))) if isinstance(r, Adt) else None
            if v != (Sym("SYNTAX") if f == "syntax" else Sym(("result", f))):
                bad = bad or "changes %s of the result" % f
    verdict(ctx, F, fn, "parse", "parse", bad, und)
    return 1


READER_RESULTS = {"unsafe_character_encoding": "unsafe_character_encoding_flag", "fatal_issues": "fatal_issues", "non_fatal_issues": "non_fatal_issues"}


def tokenizer_value(F):
    rd = Adt(READER, None, {F.fidx(READER, n): Sym(("rd", n)) for n in fields(F, READER)})
    rd.fields[F.fidx(READER, "input")] = Ref("input")
    return Adt(TOKENIZER, None, {F.fidx(TOKENIZER, n): (rd if n == "reader" else Sym(("tk", n))) for n in fields(F, TOKENIZER)})


def clone_pol(I, st, nm, decl, k, args, t):
    if last(decl or nm) in ("clone", "to_vec", "to_owned", "to_string") and args:
        v = deep(I, st, args[0])
        if isinstance(v, Sym):
            return ("ret", v)
    return None


def expect_result(F, I, st, r, syntax):
    if not isinstance(r, Adt) or r.name != PR:
        return None, "result not known"
    for f in fields(F, PR):
        v = deep(I, st, r.fields.get(F.fidx(PR, f)))
        want = syntax if f == "syntax" else Sym(("rd", READER_RESULTS[f])) if f in READER_RESULTS else Sym(("tk", f))
        if v != want:
            return "gives %s other than the tokenizer's" % f, None
    return None, None


def check_create(ctx, F):
    fn = by_last(F, "create_parse_result")
    if not fn:
        ctx.undec("create_parse_result not found")
        return 0
    st = State()
    st.mem["tok"] = tokenizer_value(F)
    I, outs = run(ctx, F, fn, [Ref("tok"), Sym("NODES")], st, clone_pol, "create_parse_result")
    if outs is None:
        return 0
    bad = und = None
    for o in outs:
        if o.kind != "return":
            bad = bad or "does not return"
            continue
        b, u = expect_result(F, I, o.state, deep(I, o.state, o.ret), Sym("NODES"))
        bad, und = bad or b, und or u
    verdict(ctx, F, fn, "create", "create_parse_result", bad, und)
    return 1


def new_tokenizer(F, args, I, st):
    """Tokenizer::new on the caller's input and options"""
    st.emit("new", same_input(I, st, args[0]), deep(I, st, args[1]) == opts_value(F))
    return ("ret", tokenizer_value(F))


def check_token_entry(ctx, F):
    fn = by_last(F, "parse_to_token")
    if not fn:
        ctx.undec("parse_to_token not found")
        return 0
    mode = "StringifyMode"
    want = {"Normal": "next_token", "Tag": "Tokenizer_nextToken_stringifyAsTag", "File": "Tokenizer_nextToken_stringifyAsFile"}
    for v in [x["name"] for x in F.adts[mode]["variants"]]:
        def pol(I, st, nm, decl, k, args, t):
            s = last(decl or nm)
            if s == "new" and "Tokenizer" in (nm or "") and len(args) == 2:
                return new_tokenizer(F, args, I, st)
            if s in want.values():
                st.emit("read", s)
                return ("ret", Sym("TOKEN"))
            return clone_pol(I, st, nm, decl, k, args, t)
        I, outs = run(ctx, F, fn, [Ref("input"), Ref("opts"), Adt(mode, v, {})], base_state(F), pol, "parse_to_token")
        if outs is None:
            continue
        bad = und = None
        for o in outs:
            ev = [e for e in o.state.events() if e[0] in ("new", "read")]
            if o.kind != "return":
                bad = bad or "does not return"
            elif not any(e[0] == "read" for e in ev) or v not in want:
                und = und or "reading not recognised"
            elif ev != [("new", True, True), ("read", want[v])]:
                bad = bad or "does not read one %s token of its input" % v
            else:
                r = deep(I, o.state, o.ret)
                s = deep(I, o.state, r.fields.get(F.fidx(PR, "syntax"))) if isinstance(r, Adt) and r.name == PR else None
                l = items_of(I, o.state, s.fields.get(0)) if isinstance(s, Adt) and s.name == "NodeSeq" else None
                if l is None:
                    und = und or "syntax not known"
                elif [deep(I, o.state, x) for x in l] != [Sym("TOKEN")]:
                    bad = bad or "does not give back the token it read"
                else:
                    b, u = expect_result(F, I, o.state, Adt(PR, None, {**r.fields, F.fidx(PR, "syntax"): Sym("T")}), Sym("T"))
                    bad, und = bad or b, und or u
        verdict(ctx, F, fn, "token:%s" % v, "parse_to_token (%s)" % v, bad, und)
    return 1


def check_tokenize(ctx, F):
    """tokenize(str) is tokenize_bytes on the same bytes"""
    fn = "tokenize" if "tokenize" in F.fns else None
    if not fn:
        ctx.undec("tokenize not found")
        return 0

    def pol(I, st, nm, decl, k, args, t):
        s = last(decl or nm)
        if s == "as_bytes" and args and isinstance(args[0], Ref) and args[0].obj == "input":
            return ("ret", args[0])
        if s == "tokenize_bytes":
            st.emit("tb", same_input(I, st, args[0]), deep(I, st, args[1]) == opts_value(F))
            s2 = st.fork()
            st.emit("ok", 1)
            return ("outs", [(st, M.ok(Sym("TOKENS"))), (s2, M.err(Sym("FLAG")))])
        return None
    I, outs = run(ctx, F, fn, [Ref("input"), Ref("opts")], base_state(F), pol, "tokenize")
    if outs is None:
        return 0
    bad = und = None
    for o in outs:
        ev = [e for e in o.state.events() if e[0] == "tb"]
        ok = any(e[0] == "ok" for e in o.state.events())
        if not ev:
            und = und or "delegation not recognised"
        elif ev != [("tb", True, True)]:
            bad = bad or "does not tokenize its input once with its options"
        elif ok and (o.kind != "return" or deep(I, o.state, o.ret) != Sym("TOKENS")):
            bad = bad or "does not give back the tokens"
        elif not ok and o.kind == "return":
            bad = bad or "hides an encoding error"
    verdict(ctx, F, fn, "tokenize", "tokenize", bad, und)
    return 1


def check_safe(ctx, F):
    """safe_string reads to the end and answers the input, or the flag if it is set"""
    fn = by_last(F, "safe_string")
    if not fn:
        ctx.undec("safe_string not found")
        return 0

    def pol(I, st, nm, decl, k, args, t):
        s = last(decl or nm)
        if s == "new" and "Tokenizer" in (nm or "") and len(args) == 2:
            r = new_tokenizer(F, args, I, st)
            v = r[1]
            s2 = st.fork()
            st.emit("flag", 0)
            s2.emit("flag", 1)
            ri, fi = F.fidx(TOKENIZER, "reader"), F.fidx(READER, "unsafe_character_encoding_flag")
            def w(x):
                rd = v.fields[ri]
                return Adt(TOKENIZER, None, {**v.fields, ri: Adt(READER, None, {**rd.fields, fi: x})})
            return ("outs", [(st, w(M.NONE)), (s2, w(M.some(Sym("FLAG"))))])
        if s in ("next_source_char", "next_wolfram_char", "next_token"):
            n = sum(1 for e in st.events() if e[0] == "read")
            if n >= 3:
                st.emit("read", "eof")
                return ("ret", Sym("EOF"))
            s2 = st.fork()
            st.emit("read", "eof")
            s2.emit("read", "more")
            return ("outs", [(st, Sym("EOF")), (s2, Sym(("char", n)))])
        if s == "isEndOfFile":
            return ("ret", int(deep(I, st, args[0]) == Sym("EOF")))
        if s in ("eq", "ne") and len(args) == 2:
            a, b = deep(I, st, args[0]), deep(I, st, args[1])
            if Sym("EOF") in (a, b) or any(isinstance(x, Sym) and isinstance(x.id, tuple) and x.id[0] == "char" for x in (a, b)):
                return ("ret", int((Sym("EOF") in (a, b)) ^ (s == "ne")))
            return ("ret", Sym("flag eq")) if isinstance(a, Sym) or isinstance(b, Sym) else None
        if s == "from_utf8":
            st.emit("utf8", same_input(I, st, args[0]))
            fl = [e[1] for e in st.events() if e[0] == "flag"]
            if fl == [0]:
                # no flag: the input is well-formed (P02)
                return ("ret", M.ok(Ref("str")))
            s2 = st.fork()
            return ("outs", [(st, M.ok(Ref("str"))), (s2, M.err(Sym("E")))])
        return clone_pol(I, st, nm, decl, k, args, t)
    st = base_state(F)
    st.mem["str"] = Sym("STR")
    st.cons[Sym("flag eq")] = ((1, 1),)
    I, outs = run(ctx, F, fn, [Ref("input"), Ref("opts")], st, pol, "safe_string")
    if outs is None:
        return 0
    bad = und = None
    for o in outs:
        ev = list(o.state.events())
        fl = [e[1] for e in ev if e[0] == "flag"]
        rd = [e[1] for e in ev if e[0] == "read"]
        r = deep(I, o.state, o.ret) if o.kind == "return" else None
        if not fl or not rd:
            und = und or "reading not recognised"
        elif rd[-1] != "eof":
            bad = bad or "stops before the end of the input"
        elif o.kind != "return":
            bad = bad or "does not return"
        elif fl == [1] and (r.variant != "Err" or deep(I, o.state, r.fields.get(0)) != Sym("FLAG")):
            bad = bad or "does not report the encoding flag"
        elif fl == [0] and (r.variant != "Ok" or deep(I, o.state, r.fields.get(0)) != Sym("STR")):
            bad = bad or "does not give back its input"
        elif fl == [0] and not all(e[1] for e in ev if e[0] == "utf8"):
            bad = bad or "gives back something other than its input"
    verdict(ctx, F, fn, "safe_string", "safe_string", bad, und)
    return 1


def check_iter(ctx, F):
    n = 0
    CPN = "read::code_point::CodePoint"
    for ty, ctor, reads in (("iter::SourceChars", "source_chars", "next_source_char"), ("iter::WolframChars", "wolfram_chars", "next_wolfram_char"), ("iter::Tokens", "tokens", "next_token")):
        fn = next((m for _, m in F.impl_methods("core::iter::traits::iterator::Iterator", "next") if ty in m), None)
        c = next((k for k in F.fns if k == "iter::" + ctor), None)
        if not fn or not c:
            ctx.undec("%s not found" % ty)
            continue
        n += 1
        # construction
        def cpol(I, st, nm, decl, k, args, t):
            s = last(decl or nm)
            if s == "as_bytes" and args and isinstance(args[0], Ref) and args[0].obj == "input":
                return ("ret", args[0])
            if s == "new" and ("Tokenizer" in (nm or "") or "Reader" in (nm or "")) and len(args) == 2:
                st.emit("new", same_input(I, st, args[0]), deep(I, st, args[1]) == opts_value(F))
                return ("ret", Sym("SESSION"))
            return None
        I, outs = run(ctx, F, c, [Ref("input"), Ref("opts")], base_state(F), cpol, ctor)
        if outs is not None:
            bad = und = None
            for o in outs:
                ev = [e for e in o.state.events() if e[0] == "new"]
                if o.kind != "return":
                    bad = "does not return"
                elif not ev:
                    und = "not recognised"
                elif ev != [("new", True, True)]:
                    bad = "does not read its input with its options"
            verdict(ctx, F, c, "iter:" + ctor, ctor, bad, und)
        # next
        for eof in (True, False):
            def npol(I, st, nm, decl, k, args, t):
                s = last(decl or nm)
                if s in ("next_source_char", "next_wolfram_char", "next_token"):
                    if s != reads:
                        return None
                    st.emit("read")
                    return ("ret", item)
                return None
            if ctor == "source_chars":
                item = Adt(CPN, "EndOfFile", {}) if eof else Adt(CPN, "Char", {0: Sym("c")})
            elif ctor == "wolfram_chars":
                W = "read::wl_character::WLCharacter"
                item = Adt(W, None, {F.fidx(W, f): Sym(("w", f)) for f in fields(F, W)})
                item.fields[F.fidx(W, "point")] = Adt(CPN, "EndOfFile", {}) if eof else Adt(CPN, "Char", {0: Sym("c")})
            else:
                T = "tokenize::token::Token"
                item = Adt(T, None, {F.fidx(T, f): Sym(("t", f)) for f in fields(F, T)})
                item.fields[F.fidx(T, "tok")] = Adt("tokenize::token_kind::TokenKind", "EndOfFile" if eof else "Symbol", {})
            st = State()
            st.mem["it"] = Adt(ty, None, {0: Sym("SESSION")})
            st.cons[Sym("c")] = ((0, 0xD7FF),)
            I, outs = run(ctx, F, fn, [Ref("it")], st, npol, ty)
            if outs is None:
                continue
            bad = und = None
            for o in outs:
                k = sum(1 for e in o.state.events() if e[0] == "read")
                r = deep(I, o.state, o.ret) if o.kind == "return" else None
                if o.kind != "return":
                    bad = bad or "does not return"
                elif not k:
                    und = und or "reading not recognised"
                elif k != 1:
                    bad = bad or "reads %d items at once" % k
                elif not isinstance(r, Adt) or r.variant not in ("Some", "None"):
                    und = und or "answer not known"
                elif eof != (r.variant == "None"):
                    bad = bad or ("goes on after the end of the input" if eof else "ends before the end of the input")
                elif not eof and deep(I, o.state, r.fields.get(0)) != item:
                    bad = bad or "gives something other than what was read"
            verdict(ctx, F, fn, "iter:%s:%s" % (ctor, "end" if eof else "item"), ctor, bad, und)
    return n


# ---------------------------------------------------------------- P21
def rule_options(ctx):
    F = ctx.facts()
    ctx.rule("every option setter changes its own option only and the defaults are the documented ones; a new reader, tokenizer and parser session "
             "take each option from the caller's and otherwise start fresh; numbers from outside name the option value they document; each quirk answers "
             "its own setting; every entry point sets the quirks from its options before anything can read them, and no other state outlives a call")
    n = setters(ctx, F) + defaults(ctx, F) + conversions(ctx, F) + fresh(ctx, F) + quirk_reads(ctx, F) + quirk_flow(ctx, F)
    ctx.floor("option facts", n, 12)


SETTERS = {"ParseOptions::tab_width": (OPTS, "tab_width"), "ParseOptions::source_convention": (OPTS, "src_convention"),
           "ParseOptions::first_line_behavior": (OPTS, "first_line_behavior"), "quirks::QuirkSettings::flatten_times": (QS, "flatten_times"),
           "quirks::QuirkSettings::infix_binary_at": (QS, "infix_binary_at"), "quirks::QuirkSettings::old_at_at_at": (QS, "old_at_at_at")}


def struct_ret(ctx, F, fn, args, what, want, key):
    I, outs = run(ctx, F, fn, args, State(), clone_pol, what)
    if outs is None:
        return 0
    bad = und = None
    for o in outs:
        r = deep(I, o.state, o.ret) if o.kind == "return" else None
        if o.kind != "return":
            bad = bad or "does not return"
        elif not isinstance(r, Adt):
            und = und or "result not known"
        else:
            for f, w in want.items():
                v = I.proj_read(o.state, r, ("f", F.fidx(r.name, f)))
                if w is not None and v != w:
                    bad = bad or "sets %s wrongly" % f
    verdict(ctx, F, fn, key, what, bad, und)
    return 1


def setters(ctx, F):
    n = 0
    for fn, (adt, field) in SETTERS.items():
        if fn not in F.fns:
            ctx.undec("%s not found" % fn)
            continue
        old = Adt(adt, None, {F.fidx(adt, f): Sym(("old", f)) for f in fields(F, adt)})
        want = {f: Sym("NEW") if f == field else Sym(("old", f)) for f in fields(F, adt)}
        n += struct_ret(ctx, F, fn, [old, Sym("NEW")], fn, want, "setter:" + fn)
    fn = "ParseOptions::make"
    if fn in F.fns:
        ps = ["first_line_behavior", "src_convention", "encoding_mode", "tab_width", "quirk_settings"]
        want = {f: Sym(("a", f)) for f in ps}
        want.update({"check_issues": 1, "compute_oob": 1})
        n += struct_ret(ctx, F, fn, [Sym(("a", p)) for p in ps], fn, want, "setter:make")
    return n


def defaults(ctx, F):
    n = 0
    A = lambda name, v: Adt(name, v, {})
    # documented defaults
    fn = "<quirks::QuirkSettings as core::default::Default>::default"
    q = {"infix_binary_at": 1, "flatten_times": 0, "old_at_at_at": 0}
    if fn in F.fns:
        n += struct_ret(ctx, F, fn, [], "QuirkSettings::default", q, "default:quirks")
    fn = "<ParseOptions as core::default::Default>::default"
    if fn in F.fns:
        I, outs = run(ctx, F, fn, [], State(), None, "ParseOptions::default")
        want = {"first_line_behavior": "NotScript", "src_convention": "LineColumn", "encoding_mode": "Normal", "check_issues": 1, "compute_oob": 1, "tab_width": 4}
        for o in outs or []:
            bad = None
            r = deep(I, o.state, o.ret)
            for f, w in want.items():
                v = I.proj_read(o.state, r, ("f", F.fidx(OPTS, f)))
                if (v.variant if isinstance(v, Adt) else v) != w:
                    bad = bad or "sets %s wrongly" % f
            qs = I.proj_read(o.state, r, ("f", F.fidx(OPTS, "quirk_settings")))
            for f, w in q.items():
                if I.proj_read(o.state, qs, ("f", F.fidx(QS, f))) != w:
                    bad = bad or "sets quirk %s wrongly" % f
            verdict(ctx, F, fn, "default:options", "ParseOptions::default", bad, None)
        n += 1
    return n


CONV = {"FirstLineBehavior": ["NotScript", "Check", "Script"], "EncodingMode": ["Normal", "Box"], "StringifyMode": ["Normal", "Tag", "File"],
        "SourceConvention": ["LineColumn", "CharacterIndex"]}


def conversions(ctx, F):
    n = 0
    for ty, vs in CONV.items():
        fn = next((k for k in F.fns if k.endswith("::try_from") and "core::convert::TryFrom<i32>" in k and (k.startswith("<%s " % ty) or ("::%s as" % ty) in k or ("::%s>" % ty) in k)), None)
        if not fn:
            ctx.undec("conversion to %s not found" % ty)
            continue
        n += 1
        for i in (-1, 0, 1, 2, 3, 1 << 30):
            I, outs = run(ctx, F, fn, [i], State(), None, ty)
            bad = None
            for o in outs or []:
                r = deep(I, o.state, o.ret) if o.kind == "return" else None
                if o.kind != "return":
                    bad = "panics on %d" % i
                elif 0 <= i < len(vs):
                    v = deep(I, o.state, r.fields.get(0)) if r.variant == "Ok" else None
                    if not isinstance(v, Adt) or v.variant != vs[i]:
                        bad = "does not read %d as %s" % (i, vs[i])
                elif r.variant != "Err":
                    bad = "accepts %d" % i
            verdict(ctx, F, fn, "conv:%s:%d" % (ty, i), ty, bad, None)
    return n


def fresh(ctx, F):
    """Reader::new, Tokenizer::new, ParserSession::new"""
    n = 0
    fn = next((k for k in F.fns if k.endswith("Reader::<'i>::new") or k == "read::Reader::new"), None)
    if fn:
        n += 1
        for conv in ("LineColumn", "CharacterIndex"):
            st = base_state(F)
            st.mem["opts"].fields[F.fidx(OPTS, "src_convention")] = Adt("source::SourceConvention", conv, {})
            I, outs = run(ctx, F, fn, [Ref("input"), Ref("opts")], st, None, "Reader::new")
            bad = und = None
            for o in outs or []:
                r = deep(I, o.state, o.ret) if o.kind == "return" else None
                if not isinstance(r, Adt):
                    und = "result not known"
                    continue
                g = lambda f: I.proj_read(o.state, r, ("f", F.fidx(READER, f)))
                for f in ("tab_width", "check_issues", "compute_oob", "encoding_mode"):
                    if g(f) != Sym(("opt", f)):
                        bad = bad or "does not take %s from the options" % f
                if g("offset") != 0 or g("wasEOF") != 0 or not same_input(I, o.state, g("input")):
                    bad = bad or "does not start at the beginning of the input"
                for f in ("fatal_issues", "non_fatal_issues"):
                    if items_of(I, o.state, g(f)) != []:
                        bad = bad or "starts with issues"
                fl = g("unsafe_character_encoding_flag")
                if not (isinstance(fl, Adt) and fl.variant == "None"):
                    bad = bad or "starts with an encoding flag"
                loc = g("SrcLoc")
                if not isinstance(loc, Adt) or loc.variant != conv:
                    bad = bad or "uses the wrong source convention"
                else:
                    x = loc.fields.get(0)
                    xs = [x] if conv == "CharacterIndex" else [I.proj_read(o.state, x, ("f", 0)), I.proj_read(o.state, x, ("f", 1))]
                    if any(y != 1 for y in xs):
                        bad = bad or "does not start at the first position"
            verdict(ctx, F, fn, "fresh:reader:" + conv, "Reader::new", bad, und)
    fn = next((k for k in F.fns if "Tokenizer" in k and k.endswith("::new") and F.fns[k]["argc"] == 2), None)
    if fn:
        n += 1

        def pol(I, st, nm, decl, k, args, t):
            s = last(decl or nm)
            if s == "new" and "Reader" in (nm or "") and len(args) == 2:
                st.emit("reader", same_input(I, st, args[0]), deep(I, st, args[1]) == opts_value(F))
                return ("ret", Sym("READER"))
            if s == "handle_first_line":
                st.emit("first", deep(I, st, args[0]))
                return ("ret", UNIT)
            return None
        I, outs = run(ctx, F, fn, [Ref("input"), Ref("opts")], base_state(F), pol, "Tokenizer::new")
        bad = und = None
        for o in outs or []:
            r = deep(I, o.state, o.ret) if o.kind == "return" else None
            if not isinstance(r, Adt) or r.name != TOKENIZER:
                und = "result not known"
                continue
            g = lambda f: I.proj_read(o.state, r, ("f", F.fidx(TOKENIZER, f)))
            ev = [e for e in o.state.events() if e[0] in ("reader", "first")]
            if [e for e in ev if e[0] == "reader"] != [("reader", True, True)] or g("reader") != Sym("READER"):
                bad = bad or "does not read its input with its options"
            if g("first_line_behavior") != Sym(("opt", "first_line_behavior")):
                bad = bad or "does not take the first-line behaviour from the options"
            if items_of(I, o.state, g("GroupStack")) != []:
                bad = bad or "starts inside a group"
            if len([e for e in ev if e[0] == "first"]) != 1:
                bad = bad or "does not handle the first line once"
        verdict(ctx, F, fn, "fresh:tokenizer", "Tokenizer::new", bad, und)
    fn = next((k for k in F.fns if "ParserSession" in k and k.endswith("::new")), None)
    if fn:
        n += 1

        def pol2(I, st, nm, decl, k, args, t):
            if last(decl or nm) == "new" and "Tokenizer" in (nm or "") and len(args) == 2:
                st.emit("new", same_input(I, st, args[0]), deep(I, st, args[1]) == opts_value(F))
                return ("ret", Sym("TOKENIZER"))
            return None
        I, outs = run(ctx, F, fn, [Ref("input"), Sym("B"), Ref("opts")], base_state(F), pol2, "ParserSession::new")
        bad = und = None
        PS = "parse::ParserSession"
        for o in outs or []:
            r = deep(I, o.state, o.ret) if o.kind == "return" else None
            if not isinstance(r, Adt) or r.name != PS:
                und = "result not known"
                continue
            g = lambda f: I.proj_read(o.state, r, ("f", F.fidx(PS, f)))
            if [e for e in o.state.events() if e[0] == "new"] != [("new", True, True)] or g("tokenizer") != Sym("TOKENIZER"):
                bad = bad or "does not read its input with its options"
            if g("quirk_settings") != Sym(("opt", "quirk_settings")):
                bad = bad or "does not take the quirks from the options"
            if g("builder") != Sym("B") or items_of(I, o.state, g("context_stack")) != []:
                bad = bad or "does not start with the builder given and no context"
        verdict(ctx, F, fn, "fresh:session", "ParserSession::new", bad, und)
    return n


QMAP = {"InfixBinaryAt": "infix_binary_at", "FlattenTimes": "flatten_times", "OldAtAtAt": "old_at_at_at"}


def quirk_reads(ctx, F):
    fn = by_last(F, "is_quirk_enabled")
    if not fn:
        ctx.undec("is_quirk_enabled not found")
        return 0
    for v in [x["name"] for x in F.adts["quirks::Quirk"]["variants"]]:
        def pol(I, st, nm, decl, k, args, t):
            c = cell_op(decl, nm, args)
            if isinstance(c, tuple):
                return c
            if c == "get":
                return ("ret", Adt(QS, None, {F.fidx(QS, q): Sym(("quirk", q)) for q in fields(F, QS)}))
            return None
        I, outs = run(ctx, F, fn, [Adt("quirks::Quirk", v, {})], State(), pol, "is_quirk_enabled")
        bad = und = None
        for o in outs or []:
            r = o.ret if o.kind == "return" else None
            if v not in QMAP or not (isinstance(r, Sym) and isinstance(r.id, tuple) and r.id[0] == "quirk"):
                und = und or "answer not known"
            elif r.id[1] != QMAP[v]:
                bad = bad or "answers %s for %s" % (r.id[1], v)
        verdict(ctx, F, fn, "quirk:" + v, "is_quirk_enabled", bad, und)
    # set_quirks stores its argument
    fn = by_last(F, "set_quirks")
    if fn:
        def pol(I, st, nm, decl, k, args, t):
            c = cell_op(decl, nm, args)
            if isinstance(c, tuple):
                return c
            if c in ("set", "replace"):
                st.emit("set", deep(I, st, args[1]))
                return ("ret", UNIT if c == "set" else Sym("prev"))
            return None
        I, outs = run(ctx, F, fn, [Sym("Q")], State(), pol, "set_quirks")
        bad = und = None
        for o in outs or []:
            ev = [e for e in o.state.events() if e[0] == "set"]
            if not ev:
                bad = bad or "does not store the settings" if not any("LocalKey" in str(e) for e in o.state.events()) else None
                und = und or (None if bad else "not recognised")
            elif ev[-1][1] != Sym("Q"):
                bad = bad or "stores other settings than it is given"
        verdict(ctx, F, fn, "quirk:set", "set_quirks", bad, und)
    # abstract_cst sets the quirks it is given
    fn = next((k for k in F.fns if k.endswith("abstract_cst::abstract_cst")), None)
    if fn:
        def pol(I, st, nm, decl, k, args, t):
            s = last(decl or nm)
            if s == "set_quirks":
                st.emit("set", deep(I, st, args[0]))
                return ("ret", UNIT)
            if s == "abstract_" and len(args) == 1:
                st.emit("abs", args[0])
                return ("ret", Sym("AST"))
            return None
        I, outs = run(ctx, F, fn, [Sym("CST"), Sym("Q")], State(), pol, "abstract_cst")
        bad = und = None
        for o in outs or []:
            ev = [e for e in o.state.events() if e[0] in ("set", "abs")]
            if not any(e[0] == "abs" for e in ev):
                und = und or "not recognised"
            elif ev[0] != ("set", Sym("Q")):
                bad = bad or "does not set the quirks it is given before abstracting"
            elif ev != [("set", Sym("Q")), ("abs", Sym("CST"))] or o.ret != Sym("AST"):
                bad = bad or "does not abstract its node once and give back the result"
        verdict(ctx, F, fn, "quirk:abstract", "abstract_cst", bad, und)
    return 1


ROOTS = ("parse_cst_seq", "parse_bytes_cst_seq", "parse_cst", "parse_bytes_cst", "parse_ast_seq", "parse_bytes_ast_seq", "parse_ast", "parse_bytes_ast", "tokenize",
         "tokenize_bytes", "parse_to_token", "safe_string", "iter::source_chars", "iter::wolfram_chars", "iter::tokens", "abstract_cst::abstract_cst",
         "abstract_cst::aggregate_cst_seq", "abstract_cst::aggregate_cst")
READS = {"get", "take", "with_borrow", "load", "borrow", "read", "fetch_add", "fetch_sub", "try_with"}
WRITES = {"set", "store"}
EITHER = {"lock", "with", "with_borrow_mut", "borrow_mut", "replace", "swap", "get_mut", "try_lock", "write", "as_ptr"}
STATE = ("core::cell::Cell", "core::cell::RefCell", "thread::local::LocalKey", "sync::atomic::Atomic", "sync::mutex::Mutex", "sync::rwlock::RwLock", "poison::mutex::Mutex", "poison::rwlock::RwLock")


def quirk_flow(ctx, F):
    """no entry point reaches a read of state that outlives it before it has set that state"""
    E = effects(F)
    statics = {k: v for k, v in F.consts.items() if v.get("static")}
    ctx.count("statics", len(statics))
    for k, v in statics.items():
        if v.get("mutable"):
            ctx.bad("static:" + k, "%s:%s: %s is mutable state shared by all calls" % (v.get("file"), v.get("line"), k))
    info = {}

    def mentions(x, out):
        if isinstance(x, dict):
            for key in ("fn", "res"):
                if isinstance(x.get(key), str):
                    out.append(x[key])
            for y in x.values():
                mentions(y, out)
        elif isinstance(x, list):
            for y in x:
                mentions(y, out)

    def scan(fn):
        """per block: what it may do, in order: 'get', 'set' or called functions; and its successors"""
        if fn in info:
            return info[fn]
        res = []
        for b in F.fns[fn]["blocks"]:
            t = b["t"]
            acts = []
            m = []
            mentions(b["s"], m)
            for x in b["s"]:
                if x[0] == "=" and x[2][0] == "agg" and x[2][1][0] == "closure" and x[2][1][1] in F.fns:
                    acts.append(("maycall", x[2][1][1]))
            if t["k"] == "call":
                mentions(t["a"], m)
                f = t["f"].get("k", {}) if isinstance(t["f"], dict) else {}
                nm = f.get("res") or f.get("fn")
                acts += [("call", x) for x in m if x in F.fns]
                if nm and any(s in nm for s in STATE):
                    clos = [x[2][1][1] for x in b["s"] if x[0] == "=" and x[2][0] == "agg" and x[2][1][0] == "closure" and x[2][1][1] in F.fns]
                    if last(nm) in WRITES:
                        acts.append(("set", nm))
                    elif last(nm) in READS:
                        acts.append(("get", nm))
                    elif last(nm) == "with" and len(clos) == 1:
                        acts = [a for a in acts if a != ("maycall", clos[0])]
                        acts.append(("with", clos[0]))
                    elif last(nm) in EITHER:
                        # may read, may write, or both: decides nothing
                        acts.append(("either", nm))
                elif nm in F.fns:
                    acts.append(("call", nm))
                else:
                    decl = f.get("fn")
                    for g in E.trait_impls.get(decl, []) if decl else []:
                        if g in F.fns:
                            acts.append(("maycall", g))
                    if nm is None:
                        for g in E.targets(fn, t):
                            acts.append(("maycall", g))
            else:
                acts += [("call", x) for x in m if x in F.fns]
            succ = set()

            def add(x):
                if isinstance(x, int):
                    succ.add(x)
            for key in ("to", "else"):
                add(t.get(key))
            for a in t.get("arms", []):
                add(a[1])
            res.append((acts, succ))
        info[fn] = res
        return res
    exposed, mustset, unclear = {}, {}, {}
    # fixpoint: exposed grows from False, mustset shrinks from True
    reach, work = set(), [r for r in ROOTS if r in F.fns]
    while work:
        f = work.pop()
        if f in reach:
            continue
        reach.add(f)
        for acts, _ in scan(f):
            for a, g in acts:
                if a in ("call", "maycall", "with") and g not in reach:
                    work.append(g)
    for f in reach:
        exposed[f], mustset[f], unclear[f] = None, True, None
    changed = True
    while changed:
        changed = False
        for f in reach:
            bl = scan(f)
            seen, stack = {}, [0]
            ex, uc, ret_unset = None, None, False
            while stack:
                i = stack.pop()
                if i in seen:
                    continue
                seen[i] = 1
                acts, succ = bl[i]
                done = False
                for a, g in acts:
                    if a == "get":
                        ex = ex or (f, g)
                    elif a == "set":
                        done = True
                        break
                    elif a == "either":
                        uc = uc or (f, g)
                        done = True
                        break
                    else:
                        if exposed.get(g):
                            ex = ex or (f,) + exposed[g]
                        if unclear.get(g):
                            uc = uc or (f,) + unclear[g]
                        if a == "with" and mustset.get(g) or a == "call" and mustset.get(g) and "{closure" not in g:
                            done = True
                            break
                if done:
                    continue
                if F.fns[f]["blocks"][i]["t"]["k"] == "return":
                    ret_unset = True
                stack += list(succ)
            ms = not ret_unset
            if bool(ex) != bool(exposed[f]):
                exposed[f], changed = ex, True
            if bool(uc) != bool(unclear[f]):
                unclear[f], changed = uc, True
            if ms != mustset[f]:
                mustset[f], changed = ms, True
    n = 0
    for r in ROOTS:
        if r not in F.fns:
            continue
        n += 1
        if exposed.get(r):
            ctx.bad("state:" + r, "%s: %s can read state left by an earlier call before setting it: %s" % (F.loc(r), r, " -> ".join(exposed[r][:12])))
        elif unclear.get(r):
            ctx.undec("%s may read or write shared state: %s" % (r, " -> ".join(unclear[r][:12])))
        else:
            ctx.ok()
    ctx.count("functions reachable from entry points", len(reach))
    gets = [f for f in reach for acts, _ in scan(f) for a, g in acts if a == "get"]
    sets = [f for f in reach for acts, _ in scan(f) for a, g in acts if a == "set"]
    ctx.count("reads of state", len(gets))
    ctx.count("writes of state", len(sets))
    return n
