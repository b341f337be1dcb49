"""Lexical grammar (P22) and token extents (P11).

Tokenizer_nextToken is interpreted abstractly from a symbolic reader whose input bytes are ASCII classes.
Decoding of source characters is P01 (here replaced by its contract for ASCII: the byte is the character, one
position further).  Every exit is a box of byte ranges with a token kind, a token extent and a final position;
boxes are compared with the reference lexers below, class by class."""
from interp import *
import models as M
from rules.common import *
from rules.tokens import (TKZ, TOKEN, KIND, END, tok_policy, tok_state, toplevel, next_token_fn, roff, const_off,
                          unknowns, definite, NeedChoice)

OFF0 = 5
DIG = ((48, 57),)
ALPHA = ((65, 90), (97, 122))


def chars(s):
    return r_norm([(ord(c), ord(c)) for c in s])


def fld(F, adt, *names):
    for n in names:
        try:
            i = F.fidx(adt, n)
        except Exception:
            i = None
        if i is not None:
            return i
    return None


def ascii_policy(F):
    base = tok_policy(F)
    io, il, iw = F.fidx(READER, "offset"), F.fidx(READER, "SrcLoc"), F.fidx(READER, "wasEOF")

    def pol(I, st, name, decl, k, args, t):
        if name.endswith("::next_source_char") and name in F.fns and isinstance(args[0], Ref):
            p = args[0]
            op, lp = (p.obj, p.path + (("f", io),)), (p.obj, p.path + (("f", il),))
            off, loc = I.read(st, op), I.read(st, lp)
            if isinstance(off, int) and isinstance(loc, Adt) and loc.variant == "CharacterIndex":
                outs = []
                r = I.rng(st, LEN)
                here, end = r_int(r, ((off + 1, 1 << 60),)), r_int(r, ((0, off),))
                s2 = st.fork() if here and end else st
                if end:
                    s2.cons[LEN] = end
                    I.write(s2, (p.obj, p.path + (("f", iw),)), 1)
                    outs.append((s2, Adt(CP, "EndOfFile", {})))
                if here:
                    st.cons[LEN] = here
                    I.write(st, op, off + 1)
                    x, d = linear(loc.fields[0])
                    I.write(st, lp, Adt(LOC, "CharacterIndex", {0: Term("Add", (x, d + 1))}))
                    outs.append((st, Adt(CP, "Char", {0: byte(off)})))
                return ("outs", outs)
        if name.endswith("::is_sorted") and name in F.fns:
            # debug assertion about the constant tables (their lookups are P07)
            return ("ret", 1)
        if name.endswith("str::from_utf8") or name.endswith("str::converts::from_utf8"):
            return ("ret", M.ok(args[0]))  # any part of an ASCII input
        return base(I, st, name, decl, k, args, t)
    return pol


class Run:
    """one abstract run of a token function"""

    def __init__(self, F, fn, chk, pos, nmin, nmax, args=None, states=4000000, oob=0):
        self.F = F
        I = self.I = make_interp(F, ascii_policy(F), max_states=states, loop_limit=nmax + 4)
        I.keep = lambda k: is_byte(k) or k == LEN or isinstance(k, Term)
        st = tok_state(F, "CharacterIndex", chk, pos(0), ((0, 127),), ((OFF0 + nmin, OFF0 + nmax),), nb=1, off0=OFF0)
        for i in range(nmax + 2):
            st.cons[byte(OFF0 + i)] = pos(i)
        ri = F.fidx(TKZ, "reader")
        r = st.mem["T"].fields[ri]
        r = Adt(READER, None, {**r.fields, F.fidx(READER, "compute_oob"): oob}, r.base)
        st.mem["T"] = Adt(TKZ, None, {ri: r}, Sym("T0"))
        self.init = set(st.cons)
        self.outs = I.run(fn, [Ref("T")] + list(args if args is not None else [toplevel(F, I)]), st)

    def token(self, o):
        """(kind, start, length, (span start, span end), final offset, final location)"""
        F, I = self.F, self.I
        kv = I.proj_read(o.state, o.ret, ("f", F.fidx(TOKEN, "tok")))
        inp = I.proj_read(o.state, o.ret, ("f", F.fidx(TOKEN, "input")))
        src = I.proj_read(o.state, o.ret, ("f", F.fidx(TOKEN, "src")))
        start = length = None
        b = inp
        while isinstance(b, Adt) and len(b.fields) == 1:
            b = next(iter(b.fields.values()))
        if isinstance(b, Ref) and b.obj == INPUT:
            start = 0
            for e in b.path:
                if e[0] == "s":
                    v = const_off(I, o.state, e[1])
                    start = start + v if isinstance(v, int) and start is not None else None
                elif e[0] == "n":
                    length = const_off(I, o.state, e[1])
            if length is None and start is not None:
                ln = I.binop(o.state, "Sub", LEN, start)
                length = const_off(I, o.state, ln)
        sp = None
        if isinstance(src, Adt) and len(src.fields) == 2:
            sp = tuple(locof(src.fields[i]) for i in (0, 1))
        off = const_off(I, o.state, roff(F, I, o.state))
        loc = locof(I.read(o.state, ("T", (("f", F.fidx(TKZ, "reader")), ("f", F.fidx(READER, "SrcLoc"))))))
        return (kv.variant if isinstance(kv, Adt) else None, start, length, sp, off, loc)


def locof(v):
    if isinstance(v, Adt) and v.variant == "CharacterIndex" and 0 in v.fields:
        x, d = linear(v.fields[0])
        if x == Sym("idx"):
            return d
    return None


def expand(run, o, ref, classes):
    """results of the reference over the outcome's box: [(result, choice)]"""
    I, st = run.I, o.state
    ln = I.rng(st, LEN)
    out, work = [], [{}]
    while work:
        ch = work.pop()

        def q(i):
            if i not in ch:
                raise NeedChoice(i)
            return ch[i]
        try:
            out.append((ref(q), ch))
        except NeedChoice as e:
            i = e.i
            # consistency of "ends at" choices with the length interval of the box
            known = max((k for k, v in ch.items() if v != END), default=-1)
            ends = [k for k, v in ch.items() if v == END]
            if ends and i >= min(ends):
                work.append(ch | {i: END})
                continue
            if i > known and r_int(ln, ((OFF0 + known + 1, OFF0 + i),)):
                work.append(ch | {i: END})
            if r_int(ln, ((OFF0 + i + 1, 1 << 60),)):
                cur = I.rng(st, byte(OFF0 + i))
                for name, rs in classes:
                    if r_int(cur, rs):
                        work.append(ch | {i: name})
    return out


def show(ch):
    return "".join("<end>" if ch[i] == END else ch[i] if len(ch[i]) == 1 else "<%s>" % ch[i] for i in sorted(ch))


# ------------------------------------------------------------------ reference lexers

def ref_symbol(q, kind="Symbol"):
    """letter-like [letter-like digit]*, segments joined by context marks; a mark needs a letter behind it"""
    i = 0
    if q(0) != "`":
        i = 1
        while q(i) in ("alpha", "$", "digit"):
            i += 1
    while q(i) == "`":
        if q(i + 1) not in ("alpha", "$"):
            return "Error_ExpectedLetterlike", i + 1
        i += 2
        while q(i) in ("alpha", "$", "digit"):
            i += 1
    return kind, i


def ref_symbol_lc(q):
    """as ref_symbol for letters only, with line continuations (backslash, newline, blanks) between characters"""
    i = 1

    def skip(j):
        while q(j) == "\\" and q(j + 1) == "\n":
            j += 2
            while q(j) == " ":
                j += 1
        return j
    while True:
        j = skip(i)
        if q(j) == "alpha":
            i = j + 1
        else:
            return "Symbol", i


def ref_string(q):
    i = 1
    while True:
        c = q(i)
        if c == END:
            return "Error_UnterminatedString", i
        if c == '"':
            return "String", i + 1
        if c == "\\" and q(i + 1) in ('"', "\\"):
            i += 1
        i += 1


def ref_comment(q):
    if q(1) != "*":
        return "OpenParen", 1
    i, depth = 2, 1
    while True:
        c = q(i)
        if c == END:
            return "Error_UnterminatedComment", i
        if c == "(" and q(i + 1) == "*":
            depth += 1
            i += 2
        elif c == "*" and q(i + 1) == ")":
            depth -= 1
            i += 2
            if depth == 0:
                return "Comment", i
        else:
            i += 1


def alnum(c):
    return c != END and (c in ("zero", "digit", "alpha") or c.isalnum() and len(c) == 1)


def isdig(c):
    return c != END and (c in ("zero", "digit") or c.isdigit())


def iszero(c):
    return c in ("zero", "0")


def val(c):
    return int(c, 36)


def ref_number(q, short=False):
    """WL number: digits[^^digits][.digits][`prec|``acc][*^exp]; returns (kind, length)"""
    i = 0
    base = 0
    bad = real = neg = False
    nonzero_exp = False
    lead = 0
    if isdig(q(0)):
        z = 0
        while iszero(q(z)):
            z += 1
        i = z
        while isdig(q(i)):
            i += 1
        lead = i
        nd = i - z
        if short:
            return "Integer", i
        if q(i) == "^":
            if q(i + 1) != "^":
                return "Integer", i
            if nd == 0 or nd > 2:
                bad = True
            else:
                base = int("".join(q(k) for k in range(z, i)))
                bad = not 2 <= base <= 36
            i += 2
            lead = 0
            if alnum(q(i)):
                s = i
                while alnum(q(i)) and (base or isdig(q(i))):
                    if base and val(q(i)) >= base:
                        bad = True
                    i += 1
                lead = i - s
            elif q(i) != ".":
                return "Error_Number", i

    def result(n):
        if bad:
            return "Error_Number", n
        if real:
            return "Real", n
        if neg and nonzero_exp:
            return "Rational", n
        return "Integer", n

    def fraction(j, b):
        """digits behind a dot that ends at j: number of digits"""
        nonlocal bad
        n = 0
        while alnum(q(j + n)) and (b or isdig(q(j + n))):
            if b and val(q(j + n)) >= b:
                bad = True
            n += 1
        return n

    if q(i) == ".":
        if q(i + 1) == ".":
            return result(i) if lead else ("Error_Number", i)
        n = fraction(i + 1, base)
        if n == 0 and lead == 0:
            return "Error_Number", i + 1
        real = True
        i += 1 + n
    if q(i) == "`":
        real = True
        acc = q(i + 1) == "`"
        i += 2 if acc else 1
        supplied = sign = False
        signpos = i
        if q(i) in ("+", "-"):
            if isdig(q(i + 1)) or q(i + 1) == ".":
                sign = True
                i += 1
            else:
                return ("Error_Number", i + 1) if acc else result(i)
        if isdig(q(i)):
            supplied = True
            while isdig(q(i)):
                i += 1
        if q(i) == ".":
            if sign or supplied:
                if q(i + 1) == ".":
                    return result(i if supplied else signpos)
                n = fraction(i + 1, 0)
                if n == 0 and not supplied:
                    return "Error_Number", i + 1
                supplied = True
                i += 1 + n
            elif isdig(q(i + 1)):
                supplied = True
                i += 1 + fraction(i + 1, 0)
            elif acc:
                return "Error_Number", i + 1
            elif q(i + 1) in ("+", "-"):
                return "Error_Number", i + 2
            else:
                return result(i)
        if acc and not supplied:
            return "Error_Number", i
    if q(i) == "*" and q(i + 1) == "^":
        i += 2
        if q(i) in ("+", "-"):
            neg = q(i) == "-"
            i += 1
        if not isdig(q(i)):
            return "Error_Number", i
        while isdig(q(i)):
            if not iszero(q(i)):
                nonzero_exp = True
            i += 1
        if q(i) == ".":
            if q(i + 1) == ".":
                return result(i)
            n = fraction(i + 1, base)
            return "Error_Number", i + 1 + n
    return result(i)


def others(*rss):
    return r_minus(((0, 127),), r_norm([x for rs in rss for x in rs]))


def partition_classes(named, dom):
    cl = list(named)
    rest = r_minus(dom, r_norm([x for _, rs in cl for x in rs]))
    if rest:
        cl.append(("other", rest))
    return cl


PRINT = ((9, 10), (12, 12), (32, 126))
NOBS = r_minus(PRINT, chars("\\"))
SYM = partition_classes([("alpha", ALPHA), ("$", chars("$")), ("digit", DIG), ("`", chars("`"))], NOBS)
LC = [("alpha", chars("a")), ("\\", chars("\\")), ("\n", chars("\n")), (" ", chars(" ")), ("+", chars("+"))]
STR = [('"', chars('"')), ("\\", chars("\\")), ("\n", chars("\n")), ("a", chars("a"))]
COM = partition_classes([("(", chars("(")), ("*", chars("*")), (")", chars(")"))], PRINT)
NUM = partition_classes([("zero", chars("0")), ("digit", ((49, 57),)), ("alpha", ALPHA), (".", chars(".")), ("`", chars("`")),
                         ("^", chars("^")), ("*", chars("*")), ("+", chars("+")), ("-", chars("-"))], NOBS)
NUMV = partition_classes([(c, chars(c)) for c in "0123456789"] + [(chr(c + 32), chars(chr(c) + chr(c + 32))) for c in range(65, 91)] +
                         [(c, chars(c)) for c in ".`^*+-"], NOBS)


def dom(classes):
    return r_norm([x for _, rs in classes for x in rs])


def fixed(prefix, classes, forbid=None):
    d = dom(classes)
    if forbid:
        d = r_minus(d, forbid)

    def pos(i):
        if i < len(prefix):
            p = prefix[i]
            return p if isinstance(p, tuple) else chars(p)
        return d
    return pos


def configs(thorough):
    """(title, reference, classes, position domains, nmin, nmax, first-character class)"""
    x = 1 if thorough else 0
    A = ALPHA
    out = []
    n = 7 + x
    out.append(("symbol starting with a letter", ref_symbol, SYM, fixed([A], SYM), 1, n))
    out.append(("symbol starting with $", ref_symbol, SYM, fixed(["$"], SYM), 1, n))
    out.append(("symbol starting with a context mark", ref_symbol, SYM, fixed(["`"], SYM), 1, n))
    out.append(("symbol with line continuations", ref_symbol_lc, LC, fixed(["a"], LC), 1, 7 + x))
    out.append(("string", ref_string, STR, fixed(['"'], STR), 1, 7 + x))
    out.append(("comment", ref_comment, COM, fixed(["("], COM), 1, 8 + x))
    nocaret = chars("^")
    out.append(("number, no caret", ref_number, NUM, fixed([DIG], NUM, nocaret), 1, 5 + x))
    out.append(("number starting with a dot", ref_number, NUM, fixed([".", DIG], NUM), 2, 6 + x))
    out.append(("number with exponent", ref_number, NUM, fixed(["1", "*", "^"], NUM), 3, 7 + x))
    out.append(("number with precision", ref_number, NUM, fixed(["1", "`"], NUM), 2, 7 + x))
    out.append(("number with accuracy", ref_number, NUM, fixed(["1", "`", "`"], NUM), 3, 8 + x))
    out.append(("number with fraction and precision", ref_number, NUM, fixed(["1", ".", DIG, "`"], NUM), 4, 8 + x))
    out.append(("number with precision and exponent", ref_number, NUM, fixed(["1", "`", "2", "*", "^"], NUM), 5, 8 + x))
    out.append(("number in base 16", ref_number, NUMV, fixed(["1", "6", "^", "^", "f"], NUMV), 4, 8 + x))
    out.append(("number in base 2 with precision", ref_number, NUMV, fixed(["2", "^", "^", "1", "`"], NUMV), 3, 7 + x))
    for b in [str(d) for d in range(10)] + ["%02d" % d for d in range(100)] + ["007", "008", "100", "0016", "036", "037"]:
        out.append(("number in base %s" % b, ref_number, NUMV, fixed(list(b) + ["^"], NUMV), len(b) + 1, len(b) + 4 + x))
    return out


def rule_lexical(ctx):
    F = ctx.facts()
    fn = next_token_fn(F)
    ctx.rule("the next-token function is interpreted abstractly on symbolic ASCII input for each token family; on every box the "
             "token kind and length equal those of the reference grammar for symbols, strings, comments and numbers, and no box panics")
    ctx.assume("ASCII source text at a token boundary, top-level policy; inputs up to the stated number of characters per family "
               "(runs of the same class repeat the same loop iteration)")
    boxes = 0
    if fn is not None and TKZ in F.adts:
        for title, ref, classes, pos, nmin, nmax in configs(ctx.tier == "thorough"):
            for chk in ((0, 1) if not title.startswith("number in base ") or title.endswith(("16", "36", "37", "02")) else (0,)):
                boxes += judge(ctx, F, fn, title, ref, classes, pos, nmin, nmax, chk)
    ctx.floor("lexical boxes", boxes, 300)


def judge(ctx, F, fn, title, ref, classes, pos, nmin, nmax, chk, args=None):
    try:
        run = Run(F, fn, chk, pos, nmin, nmax, args=args)
    except Limit as e:
        ctx.undec("%s: state limit in %s" % (title, e))
        return 0
    ctx.count("abstract runs")
    n = 0
    for o in run.outs:
        if o.kind in ("cut",):
            ctx.undec("%s: loop bound" % title)
            continue
        if o.kind == "panic":
            if definite(o, run.init):
                r, d = expand(run, o, ref, classes)[0]
                ctx.bad("lex:%s:panic" % title, "%s: input %s panics in %s" % (title, show(d), o.why[2]))
            else:
                ctx.undec("%s: undecided panic path in %s" % (title, o.why[2]))
            continue
        if o.kind != "return":
            continue
        n += 1
        kind, start, length, sp, off, loc = run.token(o)
        if kind is None or not isinstance(length, int):
            ctx.undec("%s: token not resolved" % title)
            continue
        for (rk, rl), d in expand(run, o, ref, classes):
            if kind == rk and length == rl and start == OFF0:
                ctx.ok()
            elif not definite(o, run.init):
                ctx.undec("%s: undecided path for %s" % (title, show(d)))
            else:
                ctx.bad("lex:%s:%s" % (title, show(d)), "%s: input %s is tokenized as %s of %s characters; the grammar says %s of %d" % (
                    title, show(d), kind, length, rk, rl))
    return n


# ------------------------------------------------------------------ names in special positions (P25)

FILECH = "`/.!-_:$*~?"


def ref_file(q):
    """unquoted file name: letters, digits, the characters above, backslashes, and balanced brackets around anything but blanks"""
    i = 0

    def brackets(j):
        """position behind the bracket group that opens at j; None when it does not end before a blank or the end"""
        depth, j = 1, j + 1
        while depth:
            c = q(j)
            if c == END or c == "blank" or c == "newline":
                return None, j
            depth += 1 if c == "[" else -1 if c == "]" else 0
            j += 1
        return j, j
    c = q(0)
    if c == END:
        return "Error_ExpectedFile", 0
    if c == "newline":
        return "ToplevelNewline", 1
    if c == "blank":
        return "Whitespace", 1
    while True:
        c = q(i)
        if c in ("alnum", "sign", "\\"):
            i += 1
        elif c == "[":
            e, at = brackets(i)
            if e is None:
                return "Error_UnterminatedFileString", at
            i = e
        else:
            return ("String", i) if i else ("Error_ExpectedFile", 0)


def ref_tag(q):
    if q(0) not in ("alpha", "$"):
        return "Error_ExpectedTag", 0
    i = 1
    while q(i) in ("alpha", "$", "digit"):
        i += 1
    return "String", i


def ref_blob(q):
    """linear syntax from \\( to the balancing \\)"""
    i, depth = 2, 1
    while True:
        c = q(i)
        if c == END:
            return "Error_UnterminatedLinearSyntaxBlob", i
        if c != "\\":
            i += 1
            continue
        n = q(i + 1)
        if n == "(":
            depth += 1
            i += 2
        elif n == ")":
            depth -= 1
            i += 2
            if depth == 0:
                return "LinearSyntaxBlob", i
        else:
            i += 2 if n == "\\" else 1


FILE = partition_classes([("alnum", r_norm(list(ALPHA) + list(DIG))), ("sign", chars(FILECH)), ("\\", chars("\\")), ("[", chars("[")), ("]", chars("]")),
                          ("blank", chars(" \t")), ("newline", chars("\n"))], r_minus(((9, 10), (32, 126)), chars('"')))
FILEQ = FILE + [('"', chars('"'))]
TAG = partition_classes([("alpha", ALPHA), ("$", chars("$")), ("digit", DIG)], r_minus(NOBS, chars('`"')))
TAGQ = [(n, rs) for n, rs in SYM]
BLOB = [("\\", chars("\\")), ("(", chars("(")), (")", chars(")")), ("a", chars("a")), ("\n", chars("\n")), ('"', chars('"'))]


def place_configs(F, I, x):
    """(title, function suffix or None for next token, reference, classes, positions, nmin, nmax, policy)"""
    FI, TA = "Tokenizer_nextToken_stringifyAsFile", "Tokenizer_nextToken_stringifyAsTag"
    nq = chars('"')
    out = [
        ("file name", FI, ref_file, FILEQ, fixed([r_minus(dom(FILEQ), nq)], FILEQ), 0, 6 + x, None),
        ("quoted file name", FI, ref_string, STR, fixed(['"'], STR), 1, 6 + x, None),
        ("message tag", TA, ref_tag, TAG, fixed([], TAG), 0, 6 + x, None),
        ("quoted message tag", TA, ref_string, STR, fixed(['"'], STR), 1, 6 + x, None),
        ("slot name", None, lambda q: ref_symbol(q, "String"), SYM, fixed([r_norm(ALPHA + chars("$`"))], SYM), 1, 6 + x, "INSIDE_SLOT"),
        ("slot number", None, lambda q: ref_number(q, True), NUM, fixed([DIG], NUM), 1, 5 + x, "INSIDE_SLOT"),
        ("quoted slot name", None, ref_string, STR, fixed(['"'], STR), 1, 6 + x, "INSIDE_SLOT"),
        ("slot sequence number", None, lambda q: ref_number(q, True), NUM, fixed([DIG], NUM), 1, 5 + x, "INSIDE_SLOTSEQUENCE"),
        ("output number", None, lambda q: ref_number(q, True), NUM, fixed([DIG], NUM), 1, 5 + x, "INSIDE_OUT"),
        ("linear syntax", None, ref_blob, BLOB, fixed(["\\", "("], BLOB), 2, 8 + x, "TOPLEVEL"),
    ]
    return out


def rule_places(ctx):
    F = ctx.facts()
    nt = next_token_fn(F)
    ctx.rule("the token functions for file names, message tags, slots, output numbers and linear syntax are interpreted abstractly on symbolic "
             "ASCII input; on every box the token kind and length equal those of the reference grammar, and no box panics")
    ctx.assume("ASCII source text; inputs up to the stated number of characters per family")
    boxes = 0
    I0 = make_interp(F, None)
    for title, fn, ref, classes, pos, nmin, nmax, pname in place_configs(F, I0, 1 if ctx.tier == "thorough" else 0):
        f = nt
        args = []
        if fn is not None:
            fs = [k for k in F.fns if k.endswith("::" + fn)]
            f = fs[0] if len(fs) == 1 else None
        else:
            p = toplevel(F, I0, pname)
            if p is None:
                f = None
            args = [p]
        if f is None:
            ctx.undec("%s: no function to analyse" % title)
            continue
        for chk in (0, 1):
            boxes += judge(ctx, F, f, title, ref, classes, pos, nmin, nmax, chk, args=args)
    ctx.floor("boxes", boxes, 200)


# ------------------------------------------------------------------ token extents (P11)

WIDE = ((0x80, 0xd7ff), (0xe000, 0x10ffff))
WLC = "read::wl_character::WLCharacter"
ESC = "read::wl_character::Escape"


def wide_in(v):
    if isinstance(v, Sym):
        return isinstance(v.id, tuple) and v.id and v.id[0] == "wide"
    if isinstance(v, Adt):
        return any(wide_in(x) for x in v.fields.values())
    return False


def wide_policy(F, nchars):
    """characters are either one ASCII byte or an arbitrary non-ASCII character of three bytes (or a six-byte escape)"""
    base = ascii_policy(F)
    io, il, iw = F.fidx(READER, "offset"), F.fidx(READER, "SrcLoc"), F.fidx(READER, "wasEOF")

    def advance(I, st, p, off, loc, w):
        I.write(st, (p.obj, p.path + (("f", io),)), off + w)
        x, d = linear(loc.fields[0])
        I.write(st, (p.obj, p.path + (("f", il),)), Adt(LOC, "CharacterIndex", {0: Term("Add", (x, d + 1))}))
        st.mem[("locat", off + w)] = d + 1

    def pol(I, st, name, decl, k, args, t):
        src = name.endswith("::next_source_char")
        if (src or name.endswith("::next_wolfram_char")) and name in F.fns and isinstance(args[0], Ref):
            p = args[0]
            off, loc = I.read(st, (p.obj, p.path + (("f", io),))), I.read(st, (p.obj, p.path + (("f", il),)))
            if isinstance(off, int) and isinstance(loc, Adt) and loc.variant == "CharacterIndex":
                outs = []

                def wrap(cp):
                    return cp if src else Adt(WLC, None, {0: cp, 1: Adt(ESC, "None", {})})
                r = I.rng(st, LEN)
                s2 = st.fork()
                if r_int(r, ((0, off),)):
                    s2.cons[LEN] = r_int(r, ((0, off),))
                    I.write(s2, (p.obj, p.path + (("f", iw),)), 1)
                    outs.append((s2, wrap(Adt(CP, "EndOfFile", {}))))
                b = byte(off)
                if linear(loc.fields[0])[1] >= nchars:
                    return ("outs", outs)  # bound on the number of characters
                lo = r_int(I.rng(st, b), ((0, 127),))
                hi = r_int(I.rng(st, b), ((128, 255),))
                if lo and r_int(r, ((off + 1, 1 << 60),)):
                    s3 = st.fork()
                    s3.cons[LEN] = r_int(r, ((off + 1, 1 << 60),))
                    s3.cons[b] = lo
                    advance(I, s3, p, off, loc, 1)
                    outs.append((s3, wrap(Adt(CP, "Char", {0: b}))))
                if hi and r_int(r, ((off + 3, 1 << 60),)):
                    s4 = st.fork()
                    s4.cons[LEN] = r_int(r, ((off + 3, 1 << 60),))
                    s4.cons[b] = hi
                    c = Sym(("wide", off))
                    s4.cons.setdefault(c, WIDE)
                    advance(I, s4, p, off, loc, 3)
                    outs.append((s4, wrap(Adt(CP, "Char", {0: c}))))
                    s5 = s4.fork()
                    outs.append((s5, wrap(Adt(CP, "Unsafe1ByteUtf8Sequence", {}))))
                return ("outs", outs)
        if name in F.fns:
            rt = ret_ty(F, name)["s"]
            if rt.startswith(("alloc::string::String", "std::string::String", "alloc::vec", "issue::")) and not effects(F).mods(name):
                # text of messages: no influence on extents
                return ("ret", Sym(("text", name, st.frames[-1].fn, st.frames[-1].bb)))
        if name in F.fns and ret_ty(F, name)["s"] == "bool" and args and "isMB" in name.rsplit("::", 1)[1]:
            v = args[0]
            while isinstance(v, Ref):
                v = I.read(st, (v.obj, v.path))
            if wide_in(v) and len(args) == 1 and not effects(F).mods(name):
                s = Sym(("cls", name.rsplit("::", 1)[1], v))
                st.cons.setdefault(s, ((0, 1),))
                return ("ret", s)
        return base(I, st, name, decl, k, args, t)
    return pol


def token_fns(F):
    """(title, function, needs a policy argument)"""
    out = [("next token", next_token_fn(F), True)]
    for suffix, title in (("Tokenizer_nextToken_stringifyAsTag", "tag"), ("Tokenizer_nextToken_stringifyAsFile", "file name")):
        for k in F.fns:
            if k.endswith(suffix):
                out.append((title, k, False))
    return out


def rule_extents(ctx):
    F = ctx.facts()
    ctx.rule("on every abstract path of the token readers the token starts where reading started, ends where reading stopped, spans the "
             "corresponding source locations and is non-empty unless the input ended (or it is an empty error token, which consumes nothing "
             "when skipped); skipping a token moves to its end, resetting moves to its start; the token loop records every token it skips and "
             "skips every token it records; nothing in front of the first token is dropped except a #! line")
    ctx.assume("up to %d characters per token on this analysis; characters are ASCII bytes or arbitrary three-byte characters" % 4)
    n = 0
    groups = [("a letter", ALPHA), ("a digit", DIG), ("a control character", ((0, 8), (14, 31))), ("a non-ASCII character", ((128, 255),)), ("the end of input", None)]
    firsts = groups + [(repr(chr(c)), chars(chr(c))) for c in range(9, 128) if c not in (13, 92) and not any(
        r and r_int(r, ((c, c),)) for _, r in groups)]
    for title, fn, pol in token_fns(F):
        if fn is None:
            ctx.undec("token reader not found")
            continue
        for ch in firsts:
            for chk in (0, 1):
                n += extents(ctx, F, fn, title, ch, chk, pol)
    ctx.floor("token boxes", n, 300)
    skip_reset(ctx, F)
    token_loop(ctx, F)
    first_line(ctx, F)


def extents(ctx, F, fn, title, first, chk, pol):
    base = ((0, 12), (14, 91), (93, 127))
    name, fr = first
    if title == "file name":
        base = ((9, 10), (32, 32), (43, 43), (91, 93), (97, 97))
    n = 3 if name == "a non-ASCII character" else 2 if name == "a control character" else 4

    def pos(i):
        if i == 0:
            return fr or ((0, 255),)
        return r_norm(list(base) + [(128, 255)])
    label = "%s starting with %s" % (title, name)
    I = make_interp(F, wide_policy(F, n), max_states=1500000, loop_limit=8)
    I.keep = lambda k: is_byte(k) or k == LEN or isinstance(k, Term) or wide_in(k)
    w = 3
    lo = 0 if fr is None else 3 if fr[0][0] >= 128 else 1
    hi = OFF0 + (w * n if fr else 0)
    st = tok_state(F, "CharacterIndex", chk, pos(0), ((0, 255),), ((OFF0 + lo, hi),), nb=1, off0=OFF0)
    for i in range(w * n + 2):
        st.cons[byte(OFF0 + i)] = pos(i)
    ri = F.fidx(TKZ, "reader")
    r = st.mem["T"].fields[ri]
    r = Adt(READER, None, {**r.fields, F.fidx(READER, "compute_oob"): 0}, r.base)
    st.mem["T"] = Adt(TKZ, None, {ri: r}, Sym("T0"))
    st.mem[("locat", OFF0)] = 0
    run = Run.__new__(Run)
    run.F, run.I, run.init = F, I, set(st.cons)
    try:
        outs = I.run(fn, [Ref("T")] + ([toplevel(F, I)] if pol else []), st)
    except Limit as e:
        ctx.undec("%s: state limit in %s" % (label, e))
        return 0
    ctx.count("abstract runs")
    n = 0
    for o in outs:
        if o.kind == "cut":
            ctx.count("paths beyond the loop bound")
            continue
        if o.kind != "return":
            ctx.count("panic paths (%s)" % ("decided elsewhere"))
            continue
        n += 1
        kind, start, length, sp, off, loc = run.token(o)
        if None in (kind, start, sp, loc) or not isinstance(length, int) or not isinstance(off, int):
            ctx.undec("%s: token extent not resolved" % label)
            continue
        at = o.state.mem.get(("locat", off))
        where = "%s (%s, %d bytes)" % (label, kind, length)
        if start != OFF0:
            ctx.bad("ext:%s:start" % label, "%s: token text starts %+d bytes from where reading started" % (where, start - OFF0))
        elif kind.startswith("Error_Expected") and length == 0 and title != "next token":
            if sp == (0, 0):
                ctx.ok()
            else:
                ctx.bad("ext:%s:span" % label, "%s: empty error token with span %s" % (where, sp))
        elif start + length != off:
            ctx.bad("ext:%s:%s:end" % (label, kind), "%s: token text ends at +%d, reading stopped at +%d" % (where, start + length - OFF0, off - OFF0))
        elif sp[0] != 0 or at is None or sp[1] != at or loc != at:
            ctx.bad("ext:%s:%s:span" % (label, kind), "%s: token spans characters %s..%s, its text covers 0..%s, reader location %s" % (where, sp[0], sp[1], at, loc))
        elif length == 0 and kind != "EndOfFile":
            ctx.bad("ext:%s:%s:empty" % (label, kind), "%s: token consumes nothing" % where)
        elif kind == "EndOfFile" and (length or I.rng(o.state, LEN) != ((OFF0, OFF0),)):
            ctx.bad("ext:%s:eof" % label, "%s: end-of-file token although input remains" % where)
        else:
            ctx.ok()
    return n


def skip_reset(ctx, F):
    fs = {s: [k for k in F.fns if k.startswith("tokenize::token::") and k.endswith("::" + s)] for s in ("skip", "reset")}
    for name, ks in fs.items():
        if len(ks) != 1:
            ctx.undec("Token::%s not found" % name)
            continue
        I = make_interp(F, tok_policy(F))
        st = tok_state(F, "CharacterIndex", 0, ((0, 255),), ((0, 255),), ((40, 1 << 40),), nb=1, off0=OFF0)
        for kind in ("Symbol", "EndOfFile", "Whitespace"):
            s = st.fork()
            a, n, l0, l1 = 17, 6, Adt(LOC, "CharacterIndex", {0: Sym("l0")}), Adt(LOC, "CharacterIndex", {0: Sym("l1")})
            tk = token_value(F, kind, a, n, l0, l1)
            if tk is None:
                ctx.undec("token layout not recognised")
                return
            s.mem["K"] = tk
            for o in I.run(ks[0], [Ref("K"), Ref("T")], s):
                if o.kind == "panic":
                    ctx.undec("Token::%s: panic path" % name)
                    continue
                if o.kind != "return":
                    continue
                off = const_off(I, o.state, roff(F, I, o.state))
                rd = ("f", F.fidx(TKZ, "reader"))
                loc = I.read(o.state, ("T", (rd, ("f", F.fidx(READER, "SrcLoc")))))
                eof = I.read(o.state, ("T", (rd, ("f", F.fidx(READER, "wasEOF")))))
                want = (a + n, l1) if name == "skip" else (a, l0)
                if (off, loc) == want and (name == "reset" or eof == int(kind == "EndOfFile") or not isinstance(eof, int)):
                    ctx.ok()
                elif isinstance(off, int):
                    ctx.bad("token:%s:%s" % (name, kind), "Token::%s of a %s token at %d of length %d moves to offset %s, location %r, end-of-input flag %r" % (name, kind, a, n, off, loc, eof))
                else:
                    ctx.undec("Token::%s: offset not resolved" % name)


def token_value(F, kind, start, n, l0, l1):
    """Token over input[start, start+n) with span l0..l1"""
    try:
        inp = Ref(INPUT, (("s", start), ("n", n)))
        ts = [k for k in F.adts if k.endswith("::TokenStr")][0]
        bl = [k for k in F.adts if k.endswith("::BufferAndLength")][0]
        v = Adt(ts, None, {0: Adt(bl, None, {0: inp})})
        sp = [k for k in F.adts if k == "source::Span"][0]
        return Adt(TOKEN, None, {F.fidx(TOKEN, "tok"): Adt(KIND, kind, {}), F.fidx(TOKEN, "input"): v,
                                 F.fidx(TOKEN, "src"): Adt(sp, None, {0: l0, 1: l1})})
    except (IndexError, KeyError):
        return None


def driver_policy(F, extra=None):
    """token-level driver: reading a token is an event returning a token of unknown kind"""
    base = tok_policy(F)

    def pol(I, st, name, decl, k, args, t):
        last = name.rsplit("::", 1)[-1]
        if last in ("peek_token", "peek_token_with", "next_token") and name in F.fns:
            at = st.mem.get("pos", 0)
            tk = Adt(TOKEN, None, {F.fidx(TOKEN, "tok"): Adt(KIND, None, {}, Sym(("kind", at))), F.fidx(TOKEN, "input"): Sym(("text", at)),
                                   F.fidx(TOKEN, "src"): Sym(("span", at))})
            st.emit("peek", at)
            if last == "next_token":
                st.mem["pos"] = at + 1
            return ("ret", tk)
        if last in ("skip", "reset") and name.startswith("tokenize::token::") and name in F.fns:
            v = args[0]
            while isinstance(v, Ref):
                v = I.read(st, (v.obj, v.path))
            at = v.fields[F.fidx(TOKEN, "input")].id[1] if isinstance(v, Adt) else None
            st.emit(last, at)
            if at is not None:
                st.mem["pos"] = at + (1 if last == "skip" else 0)
            return ("ret", UNIT)
        if last == "abortQ" and name in F.fns:
            return ("ret", 0)
        if extra is not None:
            r = extra(I, st, name, last, args)
            if r is not None:
                return r
        return base(I, st, name, decl, k, args, t)
    return pol


def ev_trace(o, kinds=("skip", "reset", "push")):
    return [e for e in o.state.events() if e[0] in kinds]


def kind_of(F, I, o, at):
    """set of token kinds possible for token `at` on this path"""
    vs = {v["name"]: v["discr"] for v in F.adts[KIND]["variants"]}
    r = I.rng(o.state, Sym(("disc", ("kind", at))))
    return {n for n, d in vs.items() if any(l <= d <= h for l, h in r)}


def token_loop(ctx, F):
    fn = [k for k in F.fns if k.endswith("tokenize_bytes")]
    if len(fn) != 1:
        ctx.undec("tokenize_bytes not found")
        return

    def extra(I, st, name, last, args):
        if name.endswith("Tokenizer::<'i>::new") and name in F.fns:
            return ("ret", Adt(TKZ, None, {}, Sym("TK")))
        if last == "reparse_unterminated_tokens" and name in F.fns:
            return ("ret", args[0])
        return None
    I = make_interp(F, driver_policy(F, extra), loop_limit=3)
    st = State()
    st.mem["pos"] = 0
    st.cons[LEN] = ((0, 1 << 40),)
    n = 0
    ti, ki, si = (F.fidx(TOKEN, x) for x in ("input", "tok", "src"))
    for o in I.run(fn[0], [Ref(INPUT), Sym("opts")], st):
        if o.kind in ("panic", "cut", "infeasible"):
            continue
        if o.kind != "return":
            ctx.undec("tokenize_bytes: %s" % (o.why,))
            continue
        r = o.ret
        if isinstance(r, Adt) and r.variant == "Err":
            continue
        seq = r.fields.get(0) if isinstance(r, Adt) and r.variant == "Ok" else None
        vec = seq.fields.get(0) if isinstance(seq, Adt) and seq.base is None else None
        items = M.items_of(I, o.state, vec) if vec is not None else None
        if items is None:
            ctx.undec("tokenize_bytes: the result is not understood: %s" % (r,))
            continue
        n += 1
        bad = None
        nxt = 0
        for it in items:
            v = I.read(o.state, (it.obj, it.path)) if isinstance(it, Ref) else it
            if not (isinstance(v, Adt) and v.name == TOKEN and v.base is None and isinstance(v.fields.get(ti), Sym)):
                bad = None
                ctx.undec("tokenize_bytes: an element of the result is not understood")
                break
            at = v.fields[ti].id[1]
            if at != nxt:
                bad = "returns token %s where token %s is next" % (at, nxt)
                break
            k = v.fields[ki]
            if k != Adt(KIND, None, {}, Sym(("kind", at))) and len(kind_of(F, I, o, at)) != 1:
                bad = "changes the kind of token %s" % at
                break
            if v.fields[si] != Sym(("span", at)):
                bad = "changes the source of token %s" % at
                break
            nxt += 1
        else:
            if kind_of(F, I, o, nxt) != {"EndOfFile"}:
                bad = "leaves out token %s, which is not the end of the input" % nxt
        if bad:
            ctx.bad("loop:%s" % bad, "tokenize_bytes %s" % bad)
        else:
            ctx.ok()
    ctx.floor("token loop paths", n, 3)


def first_line(ctx, F):
    fn = [k for k in F.fns if k.endswith("::handle_first_line")]
    if len(fn) != 1:
        ctx.undec("handle_first_line not found")
        return
    FL = [k for k in F.adts if k.endswith("::FirstLineBehavior") or k == "FirstLineBehavior"][0]
    for b in [v["name"] for v in F.adts[FL]["variants"]]:
        I = make_interp(F, driver_policy(F), loop_limit=3)
        st = State()
        st.mem["pos"] = 0
        st.mem["T"] = Adt(TKZ, None, {F.fidx(TKZ, "first_line_behavior"): Adt(FL, b, {})}, Sym("T0"))
        for o in I.run(fn[0], [Ref("T")], st):
            if o.kind != "return":
                continue
            p = o.state.mem.get("pos", 0)
            ks = [kind_of(F, I, o, i) for i in range(p + 1)]
            if p == 0:
                script = b != "NotScript" and ks[0] == {"Hash"} and kind_of(F, I, o, 1) == {"Bang"}
                if script:
                    ctx.bad("first:%s:kept" % b, "first-line behaviour %s: a #! line is not skipped" % b)
                else:
                    ctx.ok()
                continue
            ok = b != "NotScript" and p >= 2 and ks[0] == {"Hash"} and ks[1] == {"Bang"}
            ok = ok and all("ToplevelNewline" not in ks[i] for i in range(2, p - 1)) and (
                (p > 2 and ks[p - 1] == {"ToplevelNewline"}) or ks[p] == {"EndOfFile"})
            if ok:
                ctx.ok()
            else:
                ctx.bad("first:%s:%d" % (b, p), "first-line behaviour %s: %d token(s) at the start of the input are dropped that are not a #! line (kinds %s)" % (
                    b, p, [sorted(k) if len(k) < 3 else "any of %d" % len(k) for k in ks[:p]]))
