"""Shared set-up for rules that analyse the Reader."""
from interp import Interp, State, Sym, Term, Adt, Ref, Str, Fn, UNIT, Limit
from effects import Effects

READER = "read::Reader"
LOC = "source::Location"
LC = "source::LineColumn"
CP = "read::code_point::CodePoint"
ISSUE_FIELDS = {(READER, "fatal_issues"), (READER, "non_fatal_issues")}
INPUT = ("input",)

_eff = {}


def effects(F):
    if id(F) not in _eff:
        _eff[id(F)] = Effects(F)
    return _eff[id(F)]


def ret_ty(F, fn):
    return F.types[F.fns[fn]["locals"][0]]


def is_byte(v):
    return isinstance(v, Sym) and isinstance(v.id, tuple) and len(v.id) == 3 and v.id[0] == "[]" and v.id[1] == ("obj", INPUT)


def byte(off):
    return Sym(("[]", ("obj", INPUT), off))


LEN = Sym("input.len")


def reader_state(F, off0, conv, check_issues, wasEOF=0, extra=None):
    """abstract Reader with symbolic input bytes, length, location and options"""
    st = State()
    f = {}
    R = READER

    def put(name, v):
        f[F.fidx(R, name)] = v
    put("input", Ref(INPUT))
    put("offset", off0)
    put("wasEOF", wasEOF)
    if conv == "LineColumn":
        put("SrcLoc", Adt(LOC, "LineColumn", {0: Adt(LC, None, {0: Sym("line"), 1: Sym("col")})}))
    else:
        put("SrcLoc", Adt(LOC, "CharacterIndex", {0: Sym("idx")}))
    put("tab_width", Sym("tab_width"))
    put("check_issues", check_issues)
    for k, v in (extra or {}).items():
        put(k, v)
    st.mem["S"] = Adt(R, None, f, Sym("R0"))
    st.cons[LEN] = ((off0, 1 << 40),)
    st.cons[Sym("line")] = ((1, 1 << 31),)
    st.cons[Sym("col")] = ((1, 1 << 31),)
    st.cons[Sym("idx")] = ((1, 1 << 31),)
    st.cons[Sym("tab_width")] = ((1, 1 << 20),)
    return st


def rfield(F, I, st, name):
    return I.read(st, ("S", (("f", F.fidx(READER, name)),)))


def make_interp(F, policy, **kw):
    I = Interp(F, policy, **kw)

    def sr(v):
        if is_byte(v):
            return ((0, 255),)
        return None
    I.sym_rng = sr
    ol = I.length

    def length(st, v):
        if isinstance(v, Ref) and v.obj == INPUT and not v.path:
            return LEN
        return ol(st, v)
    I.length = length
    import models

    def mlen(I_, st, a, k):
        if isinstance(a[0], Ref) and a[0].obj == INPUT:
            return I_.length(st, a[0])
        return models.MODELS["alloc::vec::Vec::len"](I_, st, a, k)
    I.models["core::slice::len"] = mlen
    return I


def only_mods(F, fn, allowed):
    return fn in F.fns and effects(F).mods(fn) <= allowed


CELL = Ref(("$dyn", Sym("$cell")))


def cell_op(decl, nm, args):
    """what a call does to a thread-local Cell: 'get', 'set', 'replace', or ('calls', ..) for LocalKey::with"""
    d = decl or nm or ""
    short = d.split("::")[-1]
    if "LocalKey" in d:
        if short == "with":
            return ("calls", args[1], [CELL])
        if short in ("get", "set", "replace"):
            return short
    elif "cell::Cell" in d and short in ("get", "set", "replace") and args and args[0] == CELL:
        return short
    return None
