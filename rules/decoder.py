"""Byte decoder: strict UTF-8, one position step per source character, unsafe encodings flagged.

Rule: abstract interpretation of the function behind Reader::next_source_char from a symbolic reader
(symbolic bytes, symbolic input length, symbolic location).  Every exit is a box of byte values; on
every box the result term, the final offset, location and flag are compared with the Unicode table."""
import numpy as np
from interp import *
from termeval import ev, grid, mask_of, syms, Unevaluable
from rules.common import *

ENTRY = ("Reader<'i>::next_source_char", "read::Reader::<'i>::next_source_char")


def entry(F):
    r = [k for k in F.fns if k.endswith("::next_source_char")]
    if r:
        return r[0]
    r = [k for k in F.fns if k.endswith("ByteDecoder_nextSourceCharacter")]
    return r[0] if r else None


_cache = {}


def analyse(F, conv, chk, off0, weof=0):
    key = (id(F), conv, chk, off0, weof)
    if key in _cache:
        return _cache[key]
    E = effects(F)

    def pol(I, st, name, decl, k, args, t):
        if "Diagnostics" in name or "diagnostic" in name:
            return ("ret", UNIT)
        if name.endswith("::addIssue") and name in F.fns:
            st.emit("issue", args[1])
            return ("ret", UNIT)
        if name in F.fns:
            rt = ret_ty(F, name)
            m = E.mods(name)
            if rt["k"] == "bool" and not m and F.fns[name]["argc"] <= 2 and not name.startswith("<") \
                    and any("WLCharacter" in F.tys(x) or "CodePoint" in F.tys(x) or "char" == F.tys(x)
                            for x in F.fns[name]["locals"][1:1 + F.fns[name]["argc"]]):
                st.n += 1
                s = Sym(("pure", name, st.n))
                st.cons[s] = ((0, 1),)
                return ("ret", s)
            if not m and rt["s"].startswith(("alloc::string::String", "std::string::String", "Vec", "alloc::vec")):
                return ("ret", Sym(("text", name)))
            if rt["s"] == "()" and m <= ISSUE_FIELDS and m and mentions_issue(F, E, name):
                # a reporting helper: its only effect is to record issues
                st.emit("issues-by", name)
                return ("ret", UNIT)
        return None
    I = make_interp(F, pol, max_states=400000)
    I.keep = lambda k: is_byte(k) or k == LEN or isinstance(k, Term)
    st = reader_state(F, off0, conv, chk, wasEOF=weof)
    if weof:
        st.cons[LEN] = ((off0, off0),)
    I.lastnotes = []
    outs = I.run(entry(F), [Ref("S"), Sym("policy")], st)
    _cache[key] = (I, outs)
    return I, outs


def mentions_issue(F, E, name):
    return any(c.endswith("::addIssue") for c in E.reach(name))


def spec(b, n, off0):
    """b: list of arrays (bytes at off0..), None when not constrained-> not needed; n = available bytes (int or INF).
    returns (kind array) as tuple of arrays: code (decoded or negative marker), consumed, flag"""
    raise NotImplementedError


EOFM, CRLF, U1, U2, U3 = -1, -13, -14, -15, -16


def spec_point_arrays(B, avail):
    """Vectorised Unicode table 3-7.  B: 4 arrays of bytes; avail: number of available bytes (0..4, 4 = four or more)
    -> value, consumed, flag(0 none,1 incomplete,2 surrogate,3 BOM), step(0 none,1 plain,2 newline,3 crlf,4 tab)"""
    b0, b1, b2, b3 = B
    n = len(b0)
    val = np.full(n, U1); con = np.ones(n, dtype=np.int64); flag = np.ones(n, dtype=np.int64); step = np.ones(n, dtype=np.int64)
    if avail == 0:
        return np.full(n, EOFM), np.zeros(n, dtype=np.int64), np.zeros(n, dtype=np.int64), np.zeros(n, dtype=np.int64)
    a = b0 < 0x80
    val[a] = b0[a]; flag[a] = 0
    step[a & ((b0 == 10) | (b0 == 13))] = 2
    step[a & (b0 == 9)] = 4
    if avail >= 2:
        m = (b0 == 13) & (b1 == 10)
        val[m] = CRLF; con[m] = 2; step[m] = 3
    cont = lambda x: (x >= 0x80) & (x <= 0xbf)
    # 2 byte
    if avail >= 2:
        m = (b0 >= 0xc2) & (b0 <= 0xdf) & cont(b1)
        val[m] = ((b0[m] & 0x1f) << 6) | (b1[m] & 0x3f); con[m] = 2; flag[m] = 0
    lead3 = (b0 >= 0xe0) & (b0 <= 0xef)
    lead4 = (b0 >= 0xf0) & (b0 <= 0xf4)
    if avail >= 2:
        ok2 = np.where(b0 == 0xe0, (b1 >= 0xa0) & (b1 <= 0xbf), cont(b1))
        ok2 = np.where(b0 == 0xf0, (b1 >= 0x90) & (b1 <= 0xbf), ok2)
        ok2 = np.where(b0 == 0xf4, (b1 >= 0x80) & (b1 <= 0x8f), ok2)
        m2 = (lead3 | lead4) & ok2
        val[m2] = U2; con[m2] = 2
        if avail >= 3:
            m3 = m2 & cont(b2)
            v3 = ((b0 & 0x0f) << 12) | ((b1 & 0x3f) << 6) | (b2 & 0x3f)
            t = m3 & lead3
            val[t] = v3[t]; con[t] = 3; flag[t] = 0
            sur = t & (v3 >= 0xd800) & (v3 <= 0xdfff)
            val[sur] = U3; flag[sur] = 2
            bom = t & (v3 == 0xfeff)
            val[bom] = U3; flag[bom] = 3
            t4 = m3 & lead4
            val[t4] = U3; con[t4] = 3
            if avail >= 4:
                m4 = t4 & cont(b3)
                v4 = ((b0 & 7) << 18) | ((b1 & 0x3f) << 12) | ((b2 & 0x3f) << 6) | (b3 & 0x3f)
                val[m4] = v4[m4]; con[m4] = 4; flag[m4] = 0
    return val, con, flag, step


MARK = {"EndOfFile": EOFM, "CRLF": CRLF, "Unsafe1ByteUtf8Sequence": U1, "Unsafe2ByteUtf8Sequence": U2, "Unsafe3ByteUtf8Sequence": U3}
FLAGS = {"IncompleteUTF8Sequence": 1, "StraySurrogate": 2, "BOM": 3}


def unfold(v):
    """strip single-field wrapper structs"""
    while isinstance(v, Adt) and v.variant is None and len(v.fields) == 1 and 0 in v.fields:
        v = v.fields[0]
    return v


class Box:
    def __init__(self, I, o, off0):
        self.o = o
        st = o.state
        lr = st.cons.get(LEN, ((off0, 1 << 40),))
        self.avail = sorted({min(4, k) for lo, hi in lr for k in range(lo - off0, min(hi - off0, 4) + 1)})
        used = set()
        for k in st.cons:
            for s in syms(k):
                if is_byte(s):
                    used.add(s)
        self.used = {s.id[2] - off0 for s in used if isinstance(s.id[2], int)}
        self.alien = [s for s in used if not (isinstance(s.id[2], int) and 0 <= s.id[2] - off0 <= 3)]
        self.st = st


def boxes(I, outs, off0):
    """yield (outcome, avail, env, mask, B arrays)"""
    for o in outs:
        b = Box(I, o, off0)
        for av in b.avail:
            rng = []
            val_syms = set()
            for k in range(4):
                s = byte(off0 + k)
                r = b.st.cons.get(s)
                if r is None:
                    r = ((0, 255),)
                # bytes the path never looked at: representative pair only when the spec ignores them too;
                # keep the whole range for used bytes, sample class representatives for unused ones
                if s not in b.st.cons and k not in b.used:
                    r = ((0, 0), (9, 10), (13, 13), (0x41, 0x41), (0x7f, 0x80), (0x8f, 0x90), (0x9f, 0xa0), (0xbf, 0xc0), (0xff, 0xff))
                if k >= av:
                    r = ((0, 0),)
                rng.append((s, r))
            try:
                env, n = grid(rng)
            except Unevaluable:
                # thin the last bytes to their interval ends
                rng2 = rng[:2] + [(s, tuple(x for lo, hi in r for x in ((lo, lo), (hi, hi)))) for s, r in rng[2:]]
                env, n = grid([(s, r_norm(r)) for s, r in rng2])
            mask = mask_of(b.st.cons, env, n, set(env))
            if b.alien:
                yield o, av, env, mask, None
                continue
            yield o, av, env, mask, [env[byte(off0 + k)] for k in range(4)]


def witness(B, mask, av):
    i = int(np.argmax(mask))
    return " ".join("%02X" % B[k][i] for k in range(av)) or "(end of input)"


CONFIGS = [(conv, chk, off0) for conv in ("LineColumn", "CharacterIndex") for chk in (0, 1) for off0 in (0, 1000)]


def check_decoder(ctx, what):
    F = ctx.facts()
    fn = entry(F)
    from runner import Vacuous
    if fn is None:
        raise Vacuous("source-character reader entry not found")
    ctx.assume("entered with wasEOF=false, or wasEOF=true at end of input; 32-bit line/column counters do not overflow; tab_width >= 1")
    total = pts = 0
    for conv, chk, off0 in CONFIGS:
        for weof in (0, 1):
            I, outs = analyse(F, conv, chk, off0, weof)
            for o, av, env, mask, B in boxes(I, outs, off0):
                if not mask.any():
                    continue
                total += 1
                pts += int(mask.sum())
                where = F.loc(fn)
                if B is None:
                    ctx.bad("%s:lookahead" % what, "%s reads input bytes outside the next four" % where)
                    continue
                if o.kind == "cut":
                    ctx.undec("loop not resolved in %s" % (o.why,))
                    continue
                w = witness(B, mask, av)
                if o.kind == "panic":
                    if not loc_feasible(o.state.cons):
                        continue
                    if what != "decode":
                        continue
                    if not all(isinstance(t, Sym) or expressible(t, env) for t in o.state.cons):
                        ctx.count("panic exits guarded by conditions outside the byte/location domain (not reported)")
                        continue
                    ctx.bad("decoder:panic:%s" % o.why[-1], "%s: bytes %s reach a panic in %s (%s)" % (where, w, o.why[-1], o.why[1]))
                    continue
                val, con, flag, step = spec_point_arrays(B, av)
                n = len(mask)
                st = o.state
                if what == "decode":
                    r = unfold(o.ret)
                    if isinstance(r, Adt) and r.variant == "Char":
                        try:
                            got = ev(r.fields[0], env)
                        except Unevaluable as e:
                            ctx.undec("decoded value not expressible: %s" % e)
                            continue
                        got = got if isinstance(got, np.ndarray) else np.full(n, got)
                    elif isinstance(r, Adt) and r.variant in MARK:
                        got = np.full(n, MARK[r.variant])
                    elif isinstance(r, Adt) and r.variant is not None:
                        got = np.full(n, -999)
                    else:
                        ctx.undec("decoder result not resolved: %r" % (r,))
                        continue
                    badv = mask & (got != val)
                    if badv.any():
                        i = int(np.argmax(badv))
                        ctx.bad("decoder:value", "%s: bytes %s decode to %s, strict UTF-8 gives %s" % (where, witness(B, badv, av), show(got[i]), show(val[i])))
                    else:
                        ctx.ok("bytes %s (%s available) -> %s" % (w, av if av < 4 else "4+", show(val[int(np.argmax(mask))])))
                    off = rfield(F, I, st, "offset")
                    try:
                        g = ev(off, env)
                        g = g if isinstance(g, np.ndarray) else np.full(n, g)
                        badv = mask & (g != con + off0)
                        if badv.any():
                            i = int(np.argmax(badv))
                            ctx.bad("decoder:consumed", "%s: bytes %s consume %d bytes, expected %d" % (where, witness(B, badv, av), g[i] - off0, con[i]))
                        else:
                            ctx.ok()
                    except Unevaluable as e:
                        ctx.undec("final offset not resolved: %r" % (off,))
                if what == "flag":
                    fl = rfield(F, I, st, "unsafe_character_encoding_flag")
                    if isinstance(fl, Adt) and fl.variant == "Some":
                        p = fl.fields[0]
                        name = p.variant if isinstance(p, Adt) else None
                        g = FLAGS.get(name, 99)
                    elif isinstance(fl, Adt) and fl.variant == "None":
                        g = -1
                    else:
                        g = 0   # unchanged initial symbol
                        if not (isinstance(fl, Sym) and fl.id[:2] == (".", "R0")):
                            ctx.undec("flag value not resolved: %r" % (fl,))
                            continue
                    badv = mask & (flag != g)
                    if badv.any():
                        i = int(np.argmax(badv))
                        ctx.bad("decoder:flag", "%s: bytes %s leave the unsafe-encoding flag %s, expected %s" % (
                            where, witness(B, badv, av), ["unchanged", "IncompleteUTF8Sequence", "StraySurrogate", "BOM"][g] if 0 <= g < 4 else "cleared/other",
                            ["unchanged", "IncompleteUTF8Sequence", "StraySurrogate", "BOM"][flag[i]]))
                    else:
                        ctx.ok("bytes %s -> flag %s" % (w, ["unchanged", "IncompleteUTF8Sequence", "StraySurrogate", "BOM"][g] if g >= 0 else "?"))
                    if chk:
                        evs = st.events()
                        fatal = [fatal_tag(F, I, st, e[1]) for e in evs if e[0] == "issue"]
                        fatal = [x for x in fatal if x]
                        want = flag != 0
                        have = bool(fatal)
                        badv = mask & (want != have)
                        if badv.any() and not any(x == "?" for x in fatal):
                            ctx.bad("decoder:fatal-issue", "%s: bytes %s: fatal encoding issue reported=%s, expected %s" % (where, witness(B, badv, av), have, not have))
                        else:
                            ctx.ok()
                        if have and not (mask & (want != have)).any():
                            exp = {1: "IncompleteUTF8Sequence", 2: "StraySurrogate", 3: "BOM"}
                            i = int(np.argmax(mask))
                            fl_set = set(flag[mask].tolist())
                            if len(fl_set) == 1 and fatal[0] not in ("?", exp[fl_set.pop()]):
                                ctx.bad("decoder:fatal-tag", "%s: bytes %s are reported as %s" % (where, w, fatal[0]))
                if what == "loc":
                    check_loc(ctx, F, I, st, conv, env, mask, step, B, av, where, n)
    ctx.count("byte boxes", total)
    ctx.count("byte points covered", pts)
    ctx.floor("decoder exits analysed", total, 200)


def fatal_tag(F, I, st, issue):
    """tag of a Fatal issue value, '?' if unknown, None if not fatal"""
    v = issue
    if isinstance(v, Ref):
        v = I.read(st, (v.obj, v.path))
    if not isinstance(v, Adt):
        return "?"
    names = [f[0] for f in F.adts[v.name]["variants"][0]["fields"]] if v.name in F.adts else []
    sev = v.fields.get(names.index("sev")) if "sev" in names else None
    tag = v.fields.get(names.index("tag")) if "tag" in names else None
    if not isinstance(sev, Adt) or sev.variant is None:
        return "?"
    if sev.variant != "Fatal":
        return None
    return tag.variant if isinstance(tag, Adt) and tag.variant else "?"


def show(x):
    x = int(x)
    for k, v in MARK.items():
        if v == x:
            return k
    return "U+%04X" % x if x >= 0 else str(x)


_L = np.repeat(np.array([1, 2, 17, 1000]), 400)
_C = np.tile(np.repeat(np.arange(1, 41), 10), 4)
_T = np.tile(np.array([1, 2, 3, 4, 5, 7, 8, 10, 16, 32]), 160)
LOCENV = {Sym("line"): _L, Sym("col"): _C, Sym("tab_width"): _T, Sym("idx"): _C}


def expressible(t, env):
    try:
        e = dict(LOCENV)
        e.update({k: v[:1] for k, v in env.items()})
        e.update({k: v[:1] for k, v in LOCENV.items()})
        ev(t, e)
        return True
    except (Unevaluable, ValueError):
        return False


def loc_feasible(cons):
    """can the constraints that only concern the location symbols hold together (on the location grid)?"""
    return bool(mask_of(cons, LOCENV, len(_L), set(LOCENV)).any())


def check_loc(ctx, F, I, st, conv, env, mask, step, B, av, where, n):
    loc = rfield(F, I, st, "SrcLoc")
    steps = sorted(set(step[mask].tolist()))
    names = {0: "no step", 1: "one column", 2: "newline", 3: "CRLF newline", 4: "tab stop"}
    L, C, T, e2 = _L, _C, _T, LOCENV
    for s in steps:
        m = mask & (step == s)
        if conv == "LineColumn":
            if not (isinstance(loc, Adt) and loc.variant == "LineColumn"):
                return ctx.undec("location not resolved: %r" % (loc,)) if not isinstance(loc, Adt) else ctx.bad("loc:variant", "%s: location convention changes for bytes %s" % (where, witness(B, m, av)))
            lc = loc.fields[0]
            if s == 0: want = (L, C)
            elif s == 1: want = (L, C + 1)
            elif s in (2, 3): want = (L + 1, np.ones_like(C))
            else: want = (L, T * ((C - 1) // T) + 1 + T)
            try:
                got = (ev(lc.fields[0], e2), ev(lc.fields[1], e2))
            except (Unevaluable, KeyError, AttributeError) as e:
                ctx.undec("location term not resolved: %r" % (loc,))
                continue
        else:
            if not (isinstance(loc, Adt) and loc.variant == "CharacterIndex"):
                return ctx.undec("location not resolved: %r" % (loc,)) if not isinstance(loc, Adt) else ctx.bad("loc:variant", "%s: location convention changes for bytes %s" % (where, witness(B, m, av)))
            want = (C + {0: 0, 1: 1, 2: 1, 3: 2, 4: 1}[s],)
            try:
                got = (ev(loc.fields[0], e2),)
            except (Unevaluable, KeyError) as e:
                ctx.undec("location term not resolved: %r" % (loc,))
                continue
        if all(np.all(g == w_) for g, w_ in zip(got, want)):
            ctx.ok("%s: bytes %s advance by %s" % (conv, witness(B, m, av), names[s]))
        else:
            ctx.bad("loc:%s" % conv, "%s: bytes %s must advance the %s position by %s, but it becomes %r" % (where, witness(B, m, av), conv, names[s], loc))


def rule_decode(ctx):
    ctx.rule("every exit of the source-character decoder, as a box of input bytes, returns the Unicode-table value and consumes exactly its bytes")
    check_decoder(ctx, "decode")


def rule_flag(ctx):
    ctx.rule("an exit of the decoder sets the unsafe-encoding flag (and reports a fatal issue when checking) iff its byte box is ill-formed UTF-8, a surrogate or a BOM")
    check_decoder(ctx, "flag")


def rule_loc(ctx):
    ctx.rule("every exit of the decoder has advanced the location by exactly the step of the character consumed (column, newline, CRLF, tab stop), in both conventions")
    check_decoder(ctx, "loc")
