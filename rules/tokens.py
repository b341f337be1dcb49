"""Tokenizer rules.

Abstract interpretation of Tokenizer_nextToken from a symbolic reader: the first byte is fixed, the bytes
behind it and the length of the input are symbolic.  Every exit is a box of byte values and a length
interval with one token kind and one final offset; each box is compared with a reference lexer."""
from interp import *
from rules.common import *

TKZ = "tokenize::tokenizer::Tokenizer"
TOKEN = "tokenize::token::Token"
KIND = "tokenize::token_kind::TokenKind"

# WL operator spellings in ASCII (from the language reference; independent of the code)
OPS = {
    ",": "Comma", "[": "OpenSquare", "]": "CloseSquare", "{": "OpenCurly", "}": "CloseCurly",
    ")": "CloseParen", "'": "SingleQuote",
    ":": "Colon", "::": "ColonColon", "::[": "ColonColonOpenSquare", ":=": "ColonEqual", ":>": "ColonGreater",
    ".": "Dot", "..": "DotDot", "...": "DotDotDot",
    "=": "Equal", "==": "EqualEqual", "===": "EqualEqualEqual", "=!=": "EqualBangEqual", "=.": "EqualDot",
    "_": "Under", "__": "UnderUnder", "___": "UnderUnderUnder", "_.": "UnderDot",
    "<": "Less", "<|": "LessBar", "<<": "LessLess", "<>": "LessGreater", "<=": "LessEqual", "<->": "LessMinusGreater",
    ">": "Greater", ">>": "GreaterGreater", ">>>": "GreaterGreaterGreater", ">=": "GreaterEqual",
    "-": "Minus", "->": "MinusGreater", "--": "MinusMinus", "-=": "MinusEqual",
    "|": "Bar", "|>": "BarGreater", "||": "BarBar", "|->": "BarMinusGreater",
    ";": "Semi", ";;": "SemiSemi",
    "!": "Bang", "!=": "BangEqual", "!!": "BangBang",
    "#": "Hash", "##": "HashHash",
    "&": "Amp", "&&": "AmpAmp",
    "/": "Slash", "/@": "SlashAt", "/;": "SlashSemi", "/.": "SlashDot", "//": "SlashSlash", "//.": "SlashSlashDot",
    "//@": "SlashSlashAt", "//=": "SlashSlashEqual", "/:": "SlashColon", "/=": "SlashEqual", "/*": "SlashStar",
    "@": "At", "@@": "AtAt", "@@@": "AtAtAt", "@*": "AtStar",
    "+": "Plus", "++": "PlusPlus", "+=": "PlusEqual",
    "~": "Tilde", "~~": "TildeTilde",
    "?": "Question", "??": "QuestionQuestion",
    "*": "Star", "*=": "StarEqual", "**": "StarStar", "*)": "Error_UnexpectedCommentCloser",
    "^": "Caret", "^=": "CaretEqual", "^:=": "CaretColonEqual",
    "%": "Percent", "%%": "PercentPercent",
}
# not operators of the language: kept out of the longest-match table above
del OPS["=."]
END = -1
FIRST = sorted({s[0] for s in OPS} - {"."})


def atoms():
    chars = sorted({c for s in OPS for c in s})
    out = [((ord(c), ord(c)),) for c in chars]
    out.append(((48, 57),))
    rest = r_minus(((0, 255),), r_norm([x for a in out for x in a]))
    return out + [rest]


ATOMS = atoms()


def reference(q):
    """longest match; q(i) yields the character class at i: a spelling character, 'd' (digit), 'o' (other) or END"""
    s = q(0)
    if s == "%":
        n = 1
        while q(n) == "%":
            n += 1
        return ("Percent" if n == 1 else "PercentPercent"), n
    best = (OPS[s], 1)
    cur = s
    i = 1
    while any(o.startswith(cur) and len(o) > len(cur) for o in OPS):
        c = q(i)
        if c == END or not any(o.startswith(cur + c) for o in OPS):
            break
        cur += c
        i += 1
        if cur in OPS:
            # a dot in front of a digit starts a number
            if cur == "/." and q(2) == "d":
                break
            best = (OPS[cur], len(cur))
    if cur == "^:":
        return "Error_ExpectedEqual", 2
    return best


def cname(atom):
    if atom == ATOMS[-2]:
        return "d"
    if atom == ATOMS[-1]:
        return "o"
    return chr(atom[0][0])


class NeedChoice(Exception):
    def __init__(self, i):
        self.i = i


def expand(I, st, ref, maxpos=12):
    """all results of ref over the byte box of st: [(result, description)]"""
    out = []
    ln = I.rng(st, LEN)
    work = [{}]
    while work:
        ch = work.pop()

        def q(i):
            if i not in ch:
                raise NeedChoice(i)
            return ch[i]
        try:
            out.append((ref(q), ch))
        except NeedChoice as e:
            i = e.i
            if i > maxpos:
                continue
            # input ends here: possible when len <= i on this box and nothing before ended
            top = max((k for k, v in ch.items() if v != END), default=-1)
            if r_int(ln, ((top + 1, i),)) and not any(v != END and k >= i for k, v in ch.items()):
                work.append(dict(ch, **{}) | {i: END})
            if any(v == END and k < i for k, v in ch.items()):
                continue
            if r_int(ln, ((i + 1, 1 << 60),)):
                cur = I.rng(st, byte(i))
                for a in ATOMS:
                    if r_int(cur, a):
                        work.append(ch | {i: cname(a)})
    return out


def next_token_fn(F):
    r = [k for k in F.fns if k.endswith("Tokenizer_nextToken")]
    if r:
        return r[0]
    r = [k for k in F.fns if k.endswith("Tokenizer::<'i>::next_token") or k.endswith("::next_token_with")]
    return r[0] if r else None


def tok_state(F, conv, chk, first, rest, lenr, nb=6, off0=0):
    st = reader_state(F, off0, conv, chk)
    r = st.mem.pop("S")
    st.mem["T"] = Adt(TKZ, None, {F.fidx(TKZ, "reader"): r}, Sym("T0"))
    for i in range(nb):
        st.cons[byte(off0 + i)] = rest
    st.cons[byte(off0)] = first
    st.cons[LEN] = lenr
    return st


def tok_policy(F):
    E = effects(F)

    def pol(I, st, name, decl, k, args, t):
        if "Diagnostics" in name or "diagnostic" in name:
            return ("ret", UNIT)
        if name.endswith("::addIssue") and name in F.fns:
            return ("ret", UNIT)
        if name in F.fns:
            if name.endswith("::containsOnlyASCII") or name.endswith("::containsTab"):
                return ("ret", st.fresh("asc"))
            rt = ret_ty(F, name)
            if rt["s"] == "()":
                m = E.mods(name)
                if m and m <= ISSUE_FIELDS:
                    return ("ret", UNIT)
        return None
    return pol


def toplevel(F, I, name="TOPLEVEL"):
    c = [k for k in F.consts if k.endswith("::" + name)]
    return I.cv(F.consts[c[0]]["v"]) if c else None


def roff(F, I, st):
    return I.read(st, ("T", (("f", F.fidx(TKZ, "reader")), ("f", F.fidx(READER, "offset")))))


def definite(o, init):
    """the outcome's path condition only speaks about input bytes and the input length"""
    return all(is_byte(k) or k == LEN or k in init or (isinstance(k, Term) and not unknowns(k)) for k in o.state.cons)


def unknowns(t):
    if isinstance(t, Term):
        return any(unknowns(x) for x in t.args if not isinstance(x, Tab))
    if isinstance(t, Sym):
        return not (is_byte(t) or t == LEN)
    return not isinstance(t, int)


def show(ch):
    return "".join("<end>" if ch[i] == END else {"d": "<digit>", "o": "<other>"}.get(ch[i], ch[i]) for i in sorted(ch))


def rule_operators(ctx):
    F = ctx.facts()
    fn = next_token_fn(F)
    ctx.rule("for every ASCII operator character, the tokenizer's next-token function is interpreted abstractly with all "
             "following bytes and the input length symbolic; on every resulting box the token kind and the number of bytes "
             "consumed equal those of longest match over the operator spelling table")
    ctx.assume("following bytes other than the backslash (escapes are P10) and ASCII; the tokenizer starts at a token boundary with the top-level policy")
    if fn is None or TKZ not in F.adts:
        ctx.undec("tokenizer entry point not found")
        ctx.floor("operator boxes", 0, 1)
    rest = ((0, 0x5b), (0x5d, 0x7f))
    boxes = 0
    kidx = F.fidx(TOKEN, "tok")
    for chk in (0, 1):
        for ch in FIRST:
            I = make_interp(F, tok_policy(F), max_states=60000)
            I.keep = lambda k: is_byte(k) or k == LEN or isinstance(k, Term)
            st = tok_state(F, "CharacterIndex", chk, ((ord(ch), ord(ch)),), rest, ((1, 1 << 40),))
            init = set(st.cons)
            pol = toplevel(F, I)
            try:
                outs = I.run(fn, [Ref("T"), pol if pol is not None else Sym("policy")], st)
            except Limit as e:
                ctx.undec("operators starting with %r: state limit in %s" % (ch, e))
                continue
            ctx.count("functions inlined", 0)
            for o in outs:
                if o.kind == "cut":
                    ctx.count("boxes beyond the loop bound (runs of more than three %)")
                    continue
                if o.kind == "panic":
                    if definite(o, init):
                        r, d = expand(I, o.state, reference)[0]
                        ctx.bad("op:%s:panic" % ch, "tokenizing %s panics in %s" % (show(d), o.why[2]))
                    continue
                if o.kind != "return":
                    continue
                boxes += 1
                kv = I.proj_read(o.state, o.ret, ("f", kidx)) if o.ret is not None else None
                off = roff(F, I, o.state)
                kind = kv.variant if isinstance(kv, Adt) else None
                if kind is None:
                    ctx.undec("operators starting with %r: token kind not resolved (%r)" % (ch, kv))
                    continue
                off = const_off(I, o.state, off)
                for (rk, rl), d in expand(I, o.state, reference):
                    if kind == rk and off == rl:
                        ctx.ok()
                    elif not definite(o, init):
                        ctx.undec("operators starting with %r: undecided path for %s" % (ch, show(d)))
                    elif kind == rk and not isinstance(off, int):
                        ctx.undec("operators starting with %r: consumed length of %s not resolved" % (ch, show(d)))
                    else:
                        ctx.bad("op:%s:%s" % (ch, show(d)), "input %s is tokenized as %s, %s bytes; longest match is %s, %d bytes (issue checks %s)" % (
                            show(d), kind, off, rk, rl, "on" if chk else "off"))
            ctx.ok("%r: %d boxes" % (ch, len(outs)), 0)
    ctx.floor("operator boxes", boxes, 100)
    ctx.counts["operator spellings"] = len(OPS)


def const_off(I, st, off):
    if isinstance(off, int):
        return off
    r = I.rng(st, off)
    if r[0][0] == r[-1][1]:
        return r[0][0]
    return off
