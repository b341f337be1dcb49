"""Character escapes: abstract interpretation of next_wolfram_char behind a backslash."""
import numpy as np
from interp import *
from termeval import ev, grid, mask_of, Unevaluable
from rules.common import *
from rules.tokens import tok_policy, toplevel, definite, unknowns, const_off
from models import some, NONE

HEX = ((48, 57), (65, 70), (97, 102))
OCT = ((48, 55),)
UPPER = ((65, 90),)
ALNUM = ((48, 57), (65, 90), (97, 122))

SIMPLE = {
    '"': "StringMeta_DoubleQuote", "<": "StringMeta_Open", ">": "StringMeta_Close", "\\": "StringMeta_Backslash",
    "b": "StringMeta_Backspace", "f": "StringMeta_FormFeed", "n": "StringMeta_LineFeed",
    "r": "StringMeta_CarriageReturn", "t": "StringMeta_Tab",
    "\n": "LineContinuation_LineFeed", " ": "LinearSyntax_Space",
}
# linear syntax characters: private-use code points assigned by the language
LINEAR = {"!": "BANG", "%": "PERCENT", "&": "AMP", "(": "OPENPAREN", ")": "CLOSEPAREN", "*": "STAR", "+": "PLUS",
          "/": "SLASH", "@": "AT", "^": "CARET", "_": "UNDER", "`": "BACKTICK"}
LINEAR_CODE = {"!": 0xF7C1, "@": 0xF7C2, "%": 0xF7C5, "^": 0xF7C6, "&": 0xF7C7, "*": 0xF7C8, "(": 0xF7C9,
               ")": 0xF7C0, "_": 0xF7CA, "+": 0xF7CB, "/": 0xF7CC, "`": 0xF7CD}
NUMERIC = {".": (2, "Hex2", HEX, 4), ":": (4, "Hex4", HEX, 4), "|": (6, "Hex6", HEX, 4)}
WLC = "read::wl_character::WLCharacter"


def within(I, st, v, rs):
    """True: always inside, False: never inside, None: both"""
    r = I.rng(st, v)
    if not r_minus(r, rs):
        return True
    if not r_int(r, rs):
        return False
    return None


def digits(arr):
    return np.where(arr <= 57, arr - 48, np.where(arr <= 70, arr - 55, arr - 87))


def rule_escapes(ctx):
    F = ctx.facts()
    fn = [k for k in F.fns if k.endswith("::next_wolfram_char")] or [k for k in F.fns if k.endswith("CharacterDecoder_nextWLCharacter")]
    ctx.rule("reading a character at a backslash is interpreted abstractly for every second byte with all later bytes and the input "
             "length symbolic; on every resulting box the decoded character, its escape kind, the bytes consumed and the position "
             "equal the escape table of the language; malformed escapes give a plain backslash and consume one byte; no box panics")
    ctx.assume("long names are followed for up to %d characters; the loop that reads them starts every iteration in the same abstract state" % 6)
    boxes = 0
    if fn:
        for chk in (0, 1):
            for b1 in list(range(128)) + [None]:
                boxes += run_case(ctx, F, fn[0], chk, b1)
            boxes += end_case(ctx, F, fn[0], chk)
    ctx.floor("escape boxes", boxes, 200)


def policy(F):
    base = tok_policy(F)

    def pol(I, st, name, decl, k, args, t):
        if name.endswith("::longname_to_codepoint") and name in F.fns:
            s0, s1 = st.fork(), st
            st.n += 1
            s1.emit("lookup", args[0], 1)
            s0.emit("lookup", args[0], 0)
            return ("outs", [(s0, NONE), (s1, some(Sym("lnpoint")))])
        if name.endswith("::next_source_char") and name in F.fns and isinstance(args[0], Ref) and args[0].obj == "S":
            off = rfield(F, I, st, "offset")
            if isinstance(off, int) and I.rng(st, byte(off))[0][0] >= 0x80:
                # decoding of non-ASCII source characters is P01; here: some non-ASCII character or marker
                p = ("S", (("f", F.fidx(READER, "offset")),))
                I.write(st, p, st.fresh("off"))
                I.write(st, ("S", (("f", F.fidx(READER, "SrcLoc")),)), Adt(LOC, "CharacterIndex", {0: st.fresh("loc")}))
                c = st.fresh("nonascii")
                s2 = st.fork()
                st.cons[c] = ((0x80, 0xd7ff), (0xe000, 0x10ffff))
                return ("outs", [(st, Adt(CP, "Char", {0: c})), (s2, Adt(CP, "Unsafe1ByteUtf8Sequence", {}))])
        if name.endswith("::isRaw") and name in F.fns:
            s = Sym("israw")
            st.cons.setdefault(s, ((0, 1),))
            return ("ret", s)
        if name.endswith("::as_str") and name in F.fns and isinstance(args[0], Ref):
            v = I.read(st, (args[0].obj, args[0].path))
            if isinstance(v, Adt) and isinstance(v.fields.get(0), Ref):
                return ("ret", v.fields[0])
        if name in F.fns:
            rt = ret_ty(F, name)
            if rt["s"].startswith(("alloc::string::String", "std::string::String", "alloc::vec", "issue::")) and not effects(F).mods(name):
                return ("ret", st.fresh("text"))
        return base(I, st, name, decl, k, args, t)
    return pol


def prep(F, chk, b1, lenr):
    I = make_interp(F, policy(F), max_states=120000, loop_limit=6)
    I.keep = lambda k: is_byte(k) or k == LEN or isinstance(k, Term) or k in (Sym("israw"), Sym("policy"))
    st = reader_state(F, 0, "CharacterIndex", chk)
    st.cons[byte(0)] = ((92, 92),)
    for i in range(1, 20):
        st.cons[byte(i)] = ((0, 0x7f),)
    if b1 is not None:
        st.cons[byte(1)] = ((b1, b1),)
    else:
        st.cons[byte(1)] = ((0x80, 0xff),)
        for i in range(2, 6):
            st.cons[byte(i)] = ((0, 0xff),)
    st.cons[LEN] = lenr
    return I, st


def locdelta(F, I, st):
    v = rfield(F, I, st, "SrcLoc")
    x = v.fields.get(0) if isinstance(v, Adt) else None
    if x == Sym("idx"):
        return 0
    if isinstance(x, Term) and x.op == "Add" and x.args[0] == Sym("idx") and isinstance(x.args[1], int):
        return x.args[1]
    return None


def any_policy(F, I, st):
    """every combination of policy flags"""
    t = toplevel(F, I)
    if not isinstance(t, Adt) or len(t.fields) != 1:
        return t or Sym("policy")
    st.cons[Sym("policy")] = ((0, 255),)
    return Adt(t.name, t.variant, {0: Sym("policy")})


def end_case(ctx, F, fn, chk):
    I, st = prep(F, chk, 0, ((1, 1),))
    outs = I.run(fn, [Ref("S"), any_policy(F, I, st)], st)
    judge(ctx, F, I, outs, set(st.cons), chk, "<end of input>", lambda o: ("plain", 1))
    return len(outs)


def run_case(ctx, F, fn, chk, b1):
    I, st = prep(F, chk, b1, ((2, 1 << 40),))
    pol = any_policy(F, I, st)
    init = set(st.cons)
    try:
        outs = I.run(fn, [Ref("S"), pol], st)
    except Limit as e:
        ctx.undec("escape \\%s: state limit in %s" % (show(b1), e))
        return 0
    c = chr(b1) if b1 is not None else None
    name = show(b1)

    def expect(o):
        s = o.state
        if c is None:
            return ("plain", 1)
        if c in SIMPLE:
            return ("variant", SIMPLE[c], "Single", 2, 2)
        if c in LINEAR:
            return ("char", LINEAR_CODE[c], "Single", 2)
        if c == "\r":
            w = within(I, s, byte(2), ((10, 10),))
            ln = within(I, s, LEN, ((3, 1 << 60),))
            if w and ln:
                return ("variant", "LineContinuation_CRLF", "Single", 3, 3)
            if w is False or ln is False:
                return ("variant", "LineContinuation_CarriageReturn", "Single", 2, 2)
            return None
        if c in NUMERIC or c in "01234567":
            n, esc, cls, sh = NUMERIC.get(c, (2, "Octal", OCT, 3))
            ok = True
            for i in range(n):
                ln = within(I, s, LEN, ((3 + i, 1 << 60),))
                w = within(I, s, byte(2 + i), cls) if ln is not False else False
                if ln is False or w is False:
                    return ("plain", 1)
                if ln is None or w is None:
                    ok = False
            if not ok:
                return None
            return ("number", n, esc, sh)
        if c == "[":
            return longname(I, s)
        return ("plain", 1)
    judge(ctx, F, I, outs, init, chk, name, expect)
    return len(outs)


def longname(I, s):
    """well-formed: upper alnum* ']'"""
    i = 2
    while i < 12:
        ln = within(I, s, LEN, ((i + 1, 1 << 60),))
        if ln is False:
            return ("plain", 1)
        w = within(I, s, byte(i), UPPER if i == 2 else ALNUM)
        if ln is None:
            return None
        if w:
            i += 1
            continue
        if w is None:
            return None
        if i == 2:
            return ("plain", 1)
        e = within(I, s, byte(i), ((93, 93),))
        if e is None:
            return None
        if not e:
            return ("plain", 1)
        return ("name", i)
    return None


def show(b):
    if b is None:
        return "<byte 80..ff>"
    return chr(b) if 32 < b < 127 else "<%02x>" % b


def judge(ctx, F, I, outs, init, chk, name, expect):
    mode = "issue checks %s" % ("on" if chk else "off")
    for o in outs:
        s = o.state
        if o.kind == "cut":
            ctx.count("boxes beyond the long-name bound")
            continue
        if o.kind == "panic":
            if panics(I, o, init):
                ctx.bad("escape:%s:panic" % name, "the escape \\%s panics in %s (%s)" % (name, o.why[2], mode))
            else:
                ctx.count("panic paths whose condition is not decided")
            continue
        if o.kind != "return":
            continue
        e = expect(o)
        key = "escape:%s" % name
        if e is None:
            ctx.undec("escape \\%s: box not separated by the reference" % name)
            continue
        pt = I.proj_read(s, o.ret, ("f", F.fidx(WLC, "point")))
        es = I.proj_read(s, o.ret, ("f", F.fidx(WLC, "escape")))
        off = const_off(I, s, rfield(F, I, s, "offset"))
        ld = locdelta(F, I, s)
        esv = es.variant if isinstance(es, Adt) else None
        got = "%r, escape %s, %s bytes consumed, position +%s" % (pt, esv, off, ld)

        def chk_(cond, want):
            if cond:
                ctx.ok()
            elif not isinstance(off, int) or ld is None or esv is None or not isinstance(pt, Adt) or vague(o, init):
                ctx.undec("escape \\%s: result not resolved: %s" % (name, got))
            else:
                ctx.bad(key, "the escape \\%s decodes to %s; expected %s (%s)" % (name, got, want, mode))
        if e[0] == "plain":
            chk_(pt == Adt(CP, "Char", {0: 92}) and esv == "None" and off == 1 and ld == 1, "a plain backslash, one byte consumed")
        elif e[0] == "variant":
            chk_(isinstance(pt, Adt) and pt.variant == e[1] and esv == e[2] and off == e[3] and ld == e[4], "%s, escape %s, %d bytes" % e[1:4])
        elif e[0] == "char":
            chk_(pt == Adt(CP, "Char", {0: e[1]}) and esv == e[2] and off == e[3] and ld == e[3], "U+%04X, escape %s, %d bytes" % e[1:4])
        elif e[0] == "name":
            lk = [x for x in s.events() if x[0] == "lookup"]
            end = e[1]
            if len(lk) < 1:
                ctx.undec("escape \\[: no long-name lookup on a well-formed path")
                continue
            txt = lk[0][1]
            want = (("s", 2), ("s", 0), ("n", end - 2))
            if isinstance(txt, Ref):
                lo = sum(x[1] for x in txt.path if x[0] == "s")
                n = [x[1] for x in txt.path if x[0] == "n"]
                n = const_off(I, s, n[-1]) if n else None
                if not isinstance(n, int) or not isinstance(lo, int):
                    ctx.undec("escape \\[: looked-up text not resolved")
                elif (lo, n) != (2, end - 2):
                    ctx.bad(key + ":text", "the long name looked up is bytes [%s, %s+%s) of a name spanning [2, %d)" % (lo, lo, n, end))
                else:
                    ctx.ok()
            else:
                ctx.undec("escape \\[: looked-up text is %r" % (txt,))
            found = lk[0][2]
            if not found:
                chk_(pt == Adt(CP, "Char", {0: 92}) and esv == "None" and off == 1 and ld == 1, "a plain backslash for an unknown long name")
            else:
                raw = within(I, s, Sym("israw"), ((1, 1),)) if Sym("israw") in s.cons else None
                wante = "Raw" if raw else "LongName" if raw is False else esv
                if pt == Sym("lnpoint") and esv == wante and esv in ("Raw", "LongName") and off == end + 1 and ld == end + 1:
                    ctx.ok()
                elif not isinstance(off, int) or ld is None or esv is None or vague(o, init):
                    ctx.undec("escape \\[: result not resolved: %s" % got)
                else:
                    ctx.bad(key, "a recognised long name ending before byte %d decodes to %s (%s)" % (end, got, mode))
        elif e[0] == "number":
            number(ctx, I, s, o, e, name, key, pt, esv, off, ld, got, mode)


def vague(o, init):
    """the path depends on something the analysis could not resolve"""
    for k in o.state.cons:
        if is_byte(k) or k == LEN or k in init or k in (Sym("israw"), Sym("lnpoint"), Sym("policy")):
            continue
        if isinstance(k, Sym) and isinstance(k.id, tuple) and k.id[0] in ("nonascii", "off", "loc", "disc"):
            continue
        if isinstance(k, Term) and not unknowns2(k):
            continue
        return True
    return False


def panics(I, o, init):
    """a panic path whose condition speaks about table lookups of input bytes: decide it on the grid"""
    s = o.state
    if any(not (is_byte(k) or k == LEN or k in init) and (isinstance(k, Sym) or unknowns2(k)) for k in s.cons):
        return False
    bs = sorted({k for t in s.cons if isinstance(t, Term) for k in bytes_of(t)}, key=lambda b: b.id[2])
    if not bs:
        return True
    try:
        for env, n in chunks(I, s, bs):
            if mask_of(s.cons, env, n, set(bs), True).any():
                return True
    except Unevaluable:
        return False
    return False


def unknowns2(t):
    if isinstance(t, Term):
        return any(unknowns2(x) for x in t.args if not isinstance(x, Tab))
    if isinstance(t, Sym):
        return not (is_byte(t) or t == LEN or t == Sym("policy"))
    return not isinstance(t, int)


def bytes_of(t):
    if isinstance(t, Term):
        out = set()
        for x in t.args:
            out |= bytes_of(x)
        return out
    return {t} if is_byte(t) else set()


def chunks(I, s, bs):
    """grids over the given bytes, split so that each stays small"""
    if len(bs) <= 4:
        yield grid([(b, I.rng(s, b)) for b in bs])
        return
    for lo, hi in I.rng(s, bs[0]):
        for v in range(lo, hi + 1):
            for lo2, hi2 in I.rng(s, bs[1]):
                for w in range(lo2, hi2 + 1):
                    env, n = grid([(b, I.rng(s, b)) for b in bs[2:]])
                    env = dict(env)
                    env[bs[0]] = np.full(n, v, dtype=np.int64)
                    env[bs[1]] = np.full(n, w, dtype=np.int64)
                    yield env, n


_seen = set()


def number(ctx, I, s, o, e, name, key, pt, esv, off, ld, got, mode):
    _, n, esc, sh = e
    first = 0 if sh == 4 else 1       # octal: the second byte is the first digit
    bs = [byte(2 + i) for i in range(n)]
    if not isinstance(pt, Adt):
        ctx.undec("escape \\%s: result not resolved: %s" % (name, got))
        return
    known = set(bs)
    ck = (name, pt, esv, off, ld, n, tuple(I.rng(s, b) for b in bs), frozenset((k, v) for k, v in s.cons.items() if isinstance(k, Term) and bytes_of(k)))
    if ck in _seen:
        ctx.ok()
        return
    tested = 0
    try:
        for env, m in chunks(I, s, bs):
            mask = mask_of(s.cons, env, m, known | {byte(1)}, True)
            if not mask.any():
                continue
            val = np.zeros(m, dtype=np.int64)
            if first:
                val = val + (I.rng(s, byte(1))[0][0] - 48)
            for b in bs:
                val = (val << sh) | digits(env[b])
            val = val[mask]
            tested += len(val)
            scalar = (val <= 0x10FFFF) & ~((val >= 0xD800) & (val <= 0xDFFF))
            if pt == Adt(CP, "Char", {0: 92}) and esv == "None":
                good = (~scalar).all() and off == 1 and ld == 1
                want = "the character itself" if scalar.any() else "a plain backslash"
                w = val[scalar][:1]
            elif pt.variant == "StringMeta_DoubleQuote":
                good = (val == 0x22).all() and esv == esc and off == 2 + n and ld == 2 + n
                w = val[val != 0x22][:1]
            elif pt.variant == "StringMeta_Backslash":
                good = (val == 0x5c).all() and esv == esc and off == 2 + n and ld == 2 + n
                w = val[val != 0x5c][:1]
            elif pt.variant == "Char":
                x = ev(pt.fields[0], env)
                x = x[mask] if isinstance(x, np.ndarray) else np.full(len(val), x, dtype=np.int64)
                bad = (x != val) | ~scalar | (val == 0x22) | (val == 0x5c)
                good = not bad.any() and esv == esc and off == 2 + n and ld == 2 + n
                w = val[bad][:1]
            else:
                good = False
                w = val[:1]
            if not good:
                w = int(w[0]) if len(w) else int(val[0])
                if not isinstance(off, int) or ld is None:
                    ctx.undec("escape \\%s: result not resolved: %s" % (name, got))
                else:
                    ctx.bad(key, "the escape \\%s with value U+%04X decodes to %s; expected that character with escape %s, %d bytes (%s)" % (
                        name, w, got, esc, 2 + n, mode))
                return
    except Unevaluable as x:
        ctx.undec("escape \\%s: value not evaluable: %s" % (name, x))
        return
    _seen.add(ck)
    if tested:
        ctx.ok("\\%s: %d digit strings -> %s" % (name, tested, pt.variant))
        ctx.count("digit strings covered", tested)
    else:
        ctx.count("infeasible boxes")
