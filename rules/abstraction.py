"""Abstraction builds the expression each concrete construct denotes (P20)."""
import re
from interp import *
from models import cvec, items_of
from rules.common import *
from rules.lexer import TOKEN, KIND
from rules.tables import OPS, op_symbol, sym_string, kinds as kind_names
from rules.tree import CST, BOX, fn_of
import models as M

DEBUG = False
AST = "ast::Ast"
META = "ast::AstMetadata"
SRC = "$src"
QUIRKS = ("infix_binary_at", "flatten_times", "old_at_at_at")
NODE = {"Infix": "InfixNode", "Prefix": "PrefixNode", "Postfix": "PostfixNode", "Binary": "BinaryNode", "Ternary": "TernaryNode",
        "PrefixBinary": "PrefixBinaryNode", "Compound": "CompoundNode", "Group": "GroupNode", "GroupMissingCloser": "GroupMissingCloserNode",
        "GroupMissingOpener": "GroupMissingOpenerNode"}
OPENUM = {"Infix": "InfixOperator", "Prefix": "PrefixOperator", "Postfix": "PostfixOperator", "Binary": "BinaryOperator", "Ternary": "TernaryOperator",
          "PrefixBinary": "PrefixBinaryOperator", "Compound": "CompoundOperator", "Group": "GroupOperator", "GroupMissingCloser": "GroupOperator",
          "GroupMissingOpener": "GroupOperator"}


# ---------------------------------------------------------------- concrete nodes
class N:
    """a concrete node: 'tok' (kind), 'any' (an arbitrary node), an operator node, a call, a syntax error"""

    def __init__(self, k, op=None, ch=(), n=0, head=None, text=None):
        self.k, self.op, self.ch, self.n, self.head, self.text = k, op, list(ch), n, head, text

    def src(self):
        if self.k in ("tok", "any"):
            return (Sym(("start", self.n)), Sym(("end", self.n)))
        c = ([self.head] if self.head is not None else []) + self.ch
        return (c[0].src()[0], c[-1].src()[1])

    def show(self):
        if self.k == "tok":
            return "%s%d" % (self.op, self.n)
        if self.k == "any":
            return "_%d" % self.n
        return "%s %s[%s]" % (self.k, self.op, ", ".join(c.show() for c in ([self.head] if self.head else []) + self.ch))


class Mk:
    def __init__(self, F):
        self.F, self.c = F, 0

    def tok(self, kind, text=None):
        self.c += 1
        return N("tok", kind, n=self.c, text=text)

    def any(self):
        self.c += 1
        return N("any", n=self.c)

    def list(self):
        """{} - an operand nothing treats specially"""
        return self.op("Group", "List", self.tok("OpenCurly"), self.tok("CloseCurly"))

    def paren(self, *ch):
        return self.op("Group", "CodeParser_GroupParen", self.tok("OpenParen"), *ch, self.tok("CloseParen"))

    def neg(self, x):
        return self.op("Prefix", "Minus", self.tok("Minus"), x)

    def times(self, *xs, sep="Star"):
        ch = []
        for i, x in enumerate(xs):
            ch += ([self.tok(sep)] if i else []) + [x]
        return self.op("Infix", "Times", *ch)

    def op(self, k, op, *ch):
        return N(k, op, ch)

    def call(self, head, op, *ch, closed=True):
        return N("Call" if closed else "CallOpen", op, ch, head=head)

    def err(self, kind, *ch):
        return N("SyntaxError", kind, ch)


def source(n):
    a, b = n.src()
    return Adt(SRC, None, {0: a, 1: b})


def text_of(n):
    return n.text if n.text is not None else Sym(("text", n.n))


def build(F, st, n):
    f = F.fidx
    if n.k == "any":
        return Sym(("node", n.n))
    if n.k == "tok":
        t = text_of(n)
        return Adt(CST, "Token", {0: Adt(TOKEN, None, {f(TOKEN, "tok"): Adt(KIND, n.op, {}), f(TOKEN, "input"): Str(t) if isinstance(t, str) else t,
                                                     f(TOKEN, "src"): source(n)})})
    seq = Adt("NodeSeq", None, {0: cvec([build(F, st, c) for c in n.ch])})

    def opnode(en, wrap):
        return Adt("cst::" + wrap, None, {0: Adt("cst::OperatorNode", None, {f("cst::OperatorNode", "op"): Adt(OPS + en, n.op, {}),
                                                                             f("cst::OperatorNode", "children"): seq})})
    if n.k in NODE:
        return Adt(CST, n.k, {0: opnode(OPENUM[n.k], NODE[n.k])})
    if n.k in ("Call", "CallOpen"):
        st.n += 1
        o = ("heap", st.n)
        st.mem[o] = build(F, st, n.head)
        v, w = ("Group", "GroupNode") if n.k == "Call" else ("GroupMissingCloser", "GroupMissingCloserNode")
        return Adt(CST, "Call", {0: Adt("cst::CallNode", None, {
            f("cst::CallNode", "head"): Adt("cst::CallHead", "Aggregate", {0: Adt(BOX, None, {0: Ref(o)})}),
            f("cst::CallNode", "body"): Adt("cst::CallBody", v, {0: opnode("CallOperator", w)})})})
    if n.k == "SyntaxError":
        return Adt(CST, "SyntaxError", {0: Adt("cst::SyntaxErrorNode", None, {f("cst::SyntaxErrorNode", "err"): Adt("parse::SyntaxErrorKind", n.op, {}),
                                                                             f("cst::SyntaxErrorNode", "children"): seq})})
    raise KeyError(n.k)


# ---------------------------------------------------------------- analysis of the implementation
def deep(I, st, v):
    while isinstance(v, Ref):
        v = I.read(st, (v.obj, v.path))
    while isinstance(v, Sym) and isinstance(v.id, tuple) and len(v.id) == 2 and v.id[0] == "*" and isinstance(v.id[1], (tuple, Sym)):
        v = v.id[1] if isinstance(v.id[1], Sym) else Sym(v.id[1])
    return v


def is_text(v):
    return isinstance(v, Sym) and isinstance(v.id, tuple) and v.id[0] in ("text", "absname") or isinstance(v, Str) or isinstance(v, Adt) and v.name in ("$fmt", "$num")


def abs_value(F, st, v):
    """the abstraction of an arbitrary node: a call with an unknown head that is not a comma"""
    st.n += 1
    o = ("heap", st.n)
    data = lambda s: Adt(META, None, {F.fidx(META, "source"): s, F.fidx(META, "issues"): cvec([])})
    n = v.id[1]
    s = Adt(SRC, None, {0: Sym(("start", n)), 1: Sym(("end", n))})
    st.mem[o] = Adt(AST, "Leaf", {0: Adt(KIND, "Symbol", {}), 1: Sym(("absname", n)), 2: data(s)})
    return Adt(AST, "Call", {0: Adt(BOX, None, {0: Ref(o)}), 1: cvec([]), 2: data(s)})


def node_src(v):
    n = v.id[1]
    return Adt(SRC, None, {0: Sym(("start", n)), 1: Sym(("end", n))})


def str_eq(I, st, a, b):
    """equality of texts; ("outs", ...) when it depends on the text of a token"""
    a, b = deep(I, st, a), deep(I, st, b)
    if isinstance(a, Str) and isinstance(b, Str):
        return 1 if a.s == b.s else 0
    if isinstance(a, Str):
        a, b = b, a
    if isinstance(a, Sym) and isinstance(a.id, tuple) and a.id[0] == "absname":
        return 0
    if isinstance(a, Sym) and isinstance(a.id, tuple) and a.id[0] == "text" and isinstance(b, Str):
        for e in st.events():
            if e[0] == "texteq" and e[1] == a:
                if e[2] == b.s:
                    return e[3]
                if e[3]:
                    return 0
        return ("ask", a, b.s)
    return None


def fork_ask(I, st, ev, a, lit, flip=False):
    res = []
    for x in (1, 0):
        s = st.fork()
        s.emit(ev, a, lit, x)
        res.append((s, (1 - x) if flip else x))
    return ("outs", res)


def policy(F, root):
    def pol(I, st, nm, decl, k, args, t):
        d = decl or nm or ""
        short = d.rsplit("::", 1)[-1]
        if nm == root and args:
            v = deep(I, st, args[0])
            if isinstance(v, Sym) and isinstance(v.id, tuple) and v.id[0] == "node":
                return ("ret", abs_value(F, st, v))
            return None
        if short in ("get_source", "source") and args:
            v = deep(I, st, args[0])
            if isinstance(v, Sym) and isinstance(v.id, tuple) and v.id[0] == "node":
                return ("ret", node_src(v))
        if nm in F.fns and t is not None and t.get("d") and F.types[F.fns[nm]["locals"][0]]["s"].endswith("; N]"):
            m = re.match(r".*; (\d+)\]$", F.types[F.fns[st.frames[-1].fn]["locals"][t["d"][0] if isinstance(t["d"], (list, tuple)) else t["d"]]]["s"])
            if m:
                st.emit("constN", int(m.group(1)))
            return None
        if short in ("try_into", "try_from") and args:
            r = to_array(F, I, st, k, args[0], short)
            if r is not None:
                return ("ret", r)
        if short == "remove" and "Vec" in d and isinstance(args[0], Ref) and isinstance(args[1], int):
            o, p = I.deref(st, args[0])
            l = items_of(I, st, I.read(st, (o, p)))
            if l is not None:
                if not 0 <= args[1] < len(l):
                    return ("panic", "removal index out of bounds")
                x = l.pop(args[1])
                I.write(st, (o, p), cvec(l))
                return ("ret", x)
        if short == "insert" and "Vec" in d and isinstance(args[0], Ref) and isinstance(args[1], int):
            o, p = I.deref(st, args[0])
            l = items_of(I, st, I.read(st, (o, p)))
            if l is not None and args[1] <= len(l):
                l.insert(args[1], args[2])
                I.write(st, (o, p), cvec(l))
                return ("ret", UNIT)
        if short == "splice" and "Vec" in d and len(args) == 3 and isinstance(args[0], Ref):
            o, p = I.deref(st, args[0])
            l, x = items_of(I, st, I.read(st, (o, p))), items_of(I, st, args[2])
            r = args[1]
            if l is not None and x is not None and isinstance(r, Adt) and r.name.endswith("::Range") and all(isinstance(r.fields.get(i), int) for i in (0, 1)):
                a, b = r.fields[0], r.fields[1]
                if not 0 <= a <= b <= len(l):
                    return ("panic", "splice range out of bounds")
                I.write(st, (o, p), cvec(l[:a] + x + l[b:]))
                return ("ret", M.it(l[a:b]))
        if short == "chunks" and isinstance(args[1], int) and args[1] > 0:
            l = items_of(I, st, args[0])
            if l is not None:
                cs = []
                for i in range(0, len(l), args[1]):
                    st.n += 1
                    st.mem[("heap", st.n)] = Adt("[]", None, {j: deep(I, st, x) for j, x in enumerate(l[i:i + args[1]])})
                    cs.append(Ref(("heap", st.n)))
                return ("ret", M.it(cs))
        if short == "index" and len(args) == 2:
            r = slice_of(I, st, args[0], deep(I, st, args[1]))
            if r is not None:
                return r
        if short in ("as_slice", "as_mut_slice") and isinstance(args[0], Ref):
            o, p = I.deref(st, args[0])
            v = I.read(st, (o, p))
            if isinstance(v, Adt) and items_of(I, st, v) is not None and v.name != "[]":
                return ("ret", Ref(o, p + (("f", 0),)))
        if d.endswith("sources::once::once"):
            return ("ret", M.it([args[0]]))
        if short == "into_general":
            return ("ret", deep(I, st, args[0]))
        if short == "between" and len(args) == 2:
            a, b = deep(I, st, args[0]), deep(I, st, args[1])
            if all(isinstance(x, Adt) and x.name == SRC for x in (a, b)):
                return ("ret", Adt(SRC, None, {0: a.fields[0], 1: b.fields[1]}))
        if short in ("as_str", "into_owned", "to_owned", "to_string", "from_string", "new", "from", "into", "borrow", "deref", "as_ref", "clone", "to_symbol",
                     "must_use", "as_symbol_ref", "from_str", "into_bytes", "into_boxed_str", "into_string", "as_bytes", "as_mut", "borrow_mut"):
            v = deep(I, st, args[0]) if args else None
            if is_text(v) and short != "to_symbol":
                return ("ret", v)
            if isinstance(v, Adt) and v.name == SRC and short == "clone":
                return ("ret", v)
            if isinstance(v, int) and short == "to_string":
                return ("ret", Str(str(v)))
            if isinstance(v, (Term, Sym)) and short == "to_string":
                return ("ret", Adt("$num", None, {0: v}))
            if short in ("to_symbol", "as_symbol_ref", "as_str") and (nm or "").startswith("wolfram_expr"):
                s = sym_string(I, st, v)
                if s is not None:
                    return ("ret", Str(s))
        if short in ("context", "symbol_name") and args:
            s = sym_string(I, st, deep(I, st, args[0]))
            if s is not None and "`" in s:
                i = s.rfind("`") + 1
                return ("ret", Str(s[:i] if short == "context" else s[i:]))
        if short in ("into", "from") and args:
            v = deep(I, st, args[0])
            if isinstance(v, Adt) and v.name == SRC:
                return ("ret", Adt(META, None, {F.fidx(META, "source"): v, F.fidx(META, "issues"): cvec([])}))
        if short in ("eq", "ne") and len(args) == 2:
            a, b = deep(I, st, args[0]), deep(I, st, args[1])
            flip = short == "ne"
            if isinstance(a, Adt) and a.name == SRC or isinstance(b, Adt) and b.name == SRC:
                return ("ret", int(a == b) ^ flip)
            if is_text(a) and is_text(b):
                r = str_eq(I, st, a, b)
                if isinstance(r, int):
                    return ("ret", r ^ flip)
                if r is not None:
                    return fork_ask(I, st, "texteq", r[1], r[2], flip)
            sa, sb = sym_string(I, st, a), sym_string(I, st, b)
            if isinstance(a, Adt) and isinstance(b, Adt) and a.name == b.name and "Symbol" in a.name and sa is not None and sb is not None:
                return ("ret", int(sa == sb) ^ flip)
        if short == "starts_with" and len(args) == 2:
            a, b = deep(I, st, args[0]), deep(I, st, args[1])
            p = chr(b) if isinstance(b, int) else b.s if isinstance(b, Str) else None
            if p is not None and isinstance(a, Str):
                return ("ret", int(a.s.startswith(p)))
            if p is not None and isinstance(a, Sym):
                for e in st.events():
                    if e[0] == "textstarts" and e[1] == a and e[2] == p:
                        return ("ret", e[3])
                return fork_ask(I, st, "textstarts", a, p)
        if short == "matches" and "str" in d and len(args) == 2:
            a, b = deep(I, st, args[0]), deep(I, st, args[1])
            if isinstance(b, Str):
                return ("ret", Adt("$matches", None, {0: a, 1: b}))
        if short == "count" and args:
            v = deep(I, st, args[0])
            if isinstance(v, Adt) and v.name == "$matches":
                s = Sym(("count", v.fields[0], v.fields[1].s))
                st.cons.setdefault(s, ((0, 1 << 20),))
                return ("ret", s)
        c = cell_op(decl, nm, args)
        if isinstance(c, tuple):
            return c
        if c == "get":
            return ("ret", Adt("quirks::QuirkSettings", None, {F.fidx("quirks::QuirkSettings", q): Sym(("quirk", q)) for q in QUIRKS}))
        if short == "is_unknown" and args:
            v = deep(I, st, args[0])
            if isinstance(v, Adt) and v.name == SRC:
                return ("ret", 0)
        if d.startswith("core::fmt::") and short in ("new_display", "new_debug", "new_lower_exp"):
            return ("ret", Adt("$arg", None, {0: short, 1: deep(I, st, args[0])}))
        if d.startswith("core::fmt::") and "Arguments" in d and short in ("new", "new_v1", "new_const", "from_str"):
            r = fmt_args(I, st, args)
            if r is not None:
                return ("ret", r)
        if short == "format" and "fmt" in d and args:
            v = deep(I, st, args[0])
            if isinstance(v, Adt) and v.name == "$fmt":
                return ("ret", v)
        return None
    return pol


def slice_of(I, st, v, r):
    """v[a..b] of a vector of known length"""
    if not isinstance(r, Adt) or "Range" not in r.name:
        return None
    l = items_of(I, st, v)
    b = [r.fields.get(i) for i in range(len(r.fields))]
    nm = r.name.rsplit("::", 1)[-1]
    if l is None or any(not isinstance(x, int) for x in b[:2]):
        return None
    lo, hi = {"Range": lambda: (b[0], b[1]), "RangeFrom": lambda: (b[0], len(l)), "RangeTo": lambda: (0, b[0]), "RangeFull": lambda: (0, len(l)),
              "RangeInclusive": lambda: (b[0], b[1] + 1), "RangeToInclusive": lambda: (0, b[0] + 1)}.get(nm, lambda: (None, None))()
    if lo is None:
        return None
    if not 0 <= lo <= hi <= len(l):
        return ("panic", "slice index out of bounds")
    st.n += 1
    st.mem[("heap", st.n)] = Adt("[]", None, {j: deep(I, st, x) for j, x in enumerate(l[lo:hi])})
    return ("ret", Ref(("heap", st.n)))


def to_array(F, I, st, k, v, short):
    """Vec / slice to array of known length"""
    l = items_of(I, st, v)
    ga = k.get("ga") or []
    if l is None or len(ga) < 2:
        return None
    tgt = F.types[ga[1] if short == "try_into" else ga[0]]["s"].lstrip("&")
    m = re.match(r".*; (\w+)\]$", tgt)
    if not m:
        return None
    n = int(m.group(1)) if m.group(1).isdigit() else next((e[1] for e in reversed(list(st.events())) if e[0] == "constN"), None)
    if n is None:
        return None
    if len(l) != n:
        return M.err(v)
    if isinstance(v, Ref):
        o, p = I.deref(st, v)
        w = I.read(st, (o, p))
        return M.ok(v if isinstance(w, Adt) and w.name == "[]" else Ref(o, p + (("f", 0),)))
    return M.ok(Adt("[]", None, dict(enumerate(l))))


def fmt_args(I, st, args):
    """the pieces of a format!: literal strings and arguments"""
    v = deep(I, st, args[0])
    bs = None
    if isinstance(v, Str):
        bs = v.s
    elif isinstance(v, Adt) and v.name == "[]":
        x = [v.fields.get(i) for i in range(len(v.fields))]
        bs = bytes(x) if all(isinstance(y, int) and 0 <= y < 256 for y in x) else None
    if bs is None and DEBUG:
        print("FMT", v)
    l = items_of(I, st, args[1]) if len(args) > 1 else []
    l = [deep(I, st, x) for x in l] if l is not None else None
    return None if bs is None or l is None else template(bs, l)


def template(s, l):
    b = s if isinstance(s, bytes) else s.encode("latin-1", "replace")
    i, out, j = 0, [], 0
    while i < len(b) and b[i]:
        c = b[i]
        if c < 0x80:
            out.append(Str(b[i + 1:i + 1 + c].decode("utf8", "replace")))
            i += 1 + c
        elif c == 0xC0:
            if j >= len(l):
                return None
            out.append(l[j])
            j += 1
            i += 1
        else:
            return None
    return Adt("$fmt", None, dict(enumerate(out)))


def norm_text(v):
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Adt) and v.name == "$fmt":
        parts = []
        for i in range(len(v.fields)):
            p = v.fields[i]
            if isinstance(p, Str):
                parts.append(p.s)
            elif isinstance(p, Adt) and p.name == "$arg":
                x = norm_text(p.fields[1])
                parts.append(x if p.fields[0] == "new_display" else ("debug", x))
            else:
                return ("?",)
        if len(parts) == 1:
            return parts[0]
        return ("cat",) + tuple(parts)
    if isinstance(v, Adt) and v.name == "$num":
        return ("num", v.fields[0])
    return v


ISSUE = "issue::Issue"


def norm_issue(F, I, st, x):
    if not isinstance(x, Adt) or x.name != ISSUE:
        return ("?",)
    f = lambda n: deep(I, st, x.fields.get(F.fidx(ISSUE, n)))
    src = f("src")
    return (f("tag").variant if isinstance(f("tag"), Adt) else "?", f("sev").variant if isinstance(f("sev"), Adt) else "?",
            (src.fields[0], src.fields[1]) if isinstance(src, Adt) and src.name == SRC else "?")


def norm_ast(F, I, st, v, d=0):
    v = deep(I, st, v)
    if d > 30 or not isinstance(v, Adt):
        return ("?", v)
    if v.name == BOX:
        return norm_ast(F, I, st, v.fields[0], d)
    if v.name != AST:
        return ("?", v.name)
    fs = [x[0] for x in next(w for w in F.adts[AST]["variants"] if w["name"] == v.variant)["fields"]]
    g = dict(zip(fs, [v.fields.get(i) for i in range(len(fs))]))
    m = deep(I, st, g.get("data", g.get("1")))
    s, iss = None, None
    if isinstance(m, Adt) and m.name == META:
        s = deep(I, st, m.fields[F.fidx(META, "source")])
        s = (s.fields[0], s.fields[1]) if isinstance(s, Adt) and s.name == SRC else s.variant if isinstance(s, Adt) else s
        iss = [deep(I, st, x) for x in (items_of(I, st, m.fields[F.fidx(META, "issues")]) or [])]
        iss = tuple(norm_issue(F, I, st, x) for x in iss)
    many = lambda x: tuple(norm_ast(F, I, st, y, d + 1) for y in (items_of(I, st, x) if items_of(I, st, x) is not None else ["?"]))
    kind = deep(I, st, g.get("kind"))
    kind = kind.variant if isinstance(kind, Adt) else kind
    if v.variant in ("Leaf", "Error"):
        return (v.variant.lower(), kind, norm_text(deep(I, st, g["input"])), s)
    if v.variant in ("Call", "CallMissingCloser"):
        h = norm_ast(F, I, st, g["head"], d + 1)
        if h[0] == "leaf" and isinstance(h[2], Sym) and h[2].id[0] == "absname":
            return ("abs", h[2].id[1])
        return (v.variant, h, many(g["args"]), s, iss)
    if v.variant == "PrefixNode_PrefixLinearSyntaxBang":
        return (v.variant, many(deep(I, st, g["0"]).fields[0] if isinstance(deep(I, st, g["0"]), Adt) and deep(I, st, g["0"]).name == BOX else g["0"]), s)
    return (v.variant, kind, many(g.get("args", g.get("children"))), s)


# ---------------------------------------------------------------- what each construct denotes
class Ask(Exception):
    def __init__(self, q):
        self.q = q


def symname(op):
    return "CodeParser`" + op[len("CodeParser_"):] if op.startswith("CodeParser_") else op


def leaf(kind, text, src="Unknown"):
    return ("leaf", kind, text, src)


def sym(name, src="Unknown"):
    return leaf("Symbol", name, src)


def call(name, args, src="Unknown", issues=()):
    return ("Call", sym(name) if isinstance(name, str) else name, tuple(args), src, tuple(issues))


def int_(k):
    return leaf("Integer", str(k))


SPECIAL = {"Pi": "\u03c0", "Degree": "\u00b0", "Infinity": "\u221e", "E": "\uf74d", "I": "\uf74e", "I ": "\uf74f"}
LONG = {"Pi": "Pi", "Degree": "Degree", "Infinity": "Infinity", "E": "ExponentialE", "I": "ImaginaryI", "I ": "ImaginaryJ"}


def spellings(k):
    c = ord(SPECIAL[k])
    r = [SPECIAL[k], "\\[%s]" % LONG[k], "\\:%04x" % c, "\\|%06x" % c]
    return r + (["\\.%02x" % c, "\\%03o" % c] if c < 256 else [])


INEQ = {"EqualEqual": "Equal", "LongName_Equal": "Equal", "LongName_LongEqual": "Equal", "BangEqual": "Unequal", "LongName_NotEqual": "Unequal",
        "Less": "Less", "Greater": "Greater", "LessEqual": "LessEqual", "GreaterEqual": "GreaterEqual",
        "LongName_GreaterSlantEqual": "GreaterEqual", "LongName_LessSlantEqual": "LessEqual"}
for _x in ("LessEqual GreaterEqual GreaterEqualLess GreaterFullEqual GreaterGreater GreaterLess GreaterTilde LessEqualGreater LessFullEqual LessGreater LessLess "
           "LessTilde NestedGreaterGreater NestedLessLess NotGreater NotGreaterEqual NotGreaterFullEqual NotGreaterGreater NotGreaterLess NotGreaterSlantEqual "
           "NotGreaterTilde NotLess NotLessEqual NotLessFullEqual NotLessGreater NotLessLess NotLessSlantEqual NotLessTilde NotNestedGreaterGreater "
           "NotNestedLessLess VectorLess VectorGreater VectorLessEqual VectorGreaterEqual").split():
    INEQ["LongName_" + _x] = _x
VECTOR = {"VectorLess", "VectorGreater", "VectorLessEqual", "VectorGreaterEqual"}
EITHER = {"Equal", "Unequal", "Less", "Greater", "LessEqual", "GreaterEqual"}
BRACKET_ERR = {"CodeParser_GroupParen": "OpenParen", "CodeParser_GroupSquare": "OpenSquare", "CodeParser_GroupTypeSpecifier": "ColonColonOpenSquare",
               "CodeParser_GroupDoubleBracket": "LeftDoubleBracket"}
ERROR_KINDS = ()


class Oracle:
    """the abstract syntax of a node, given the answers to questions about texts and quirks"""

    def __init__(self, ans):
        self.ans = ans

    # -- questions
    def ask(self, q):
        if q in self.ans:
            return self.ans[q]
        if q[0] == "eq":
            for (k, v) in self.ans.items():
                if k[0] == "eq" and k[1] == q[1] and k[2] != q[2] and v:
                    return False
        raise Ask(q)

    def eq(self, n, s):
        return n.text == s if n.text is not None else self.ask(("eq", Sym(("text", n.n)), s))

    def starts(self, n, s):
        return n.text.startswith(s) if n.text is not None else self.ask(("starts", Sym(("text", n.n)), s))

    def quirk(self, q):
        return self.ask(("quirk", q))

    # -- shapes
    @staticmethod
    def istok(n, *kinds):
        return n.k == "tok" and n.op in kinds

    @staticmethod
    def isop(n, k, *ops):
        return n.k == k and n.op in ops

    def all(self, ns):
        return tuple(self.a(x) for x in ns)

    # -- strings
    def symstr(self, n):
        t = text_of(n)
        t = t if not isinstance(t, str) else t
        if self.starts(n, '"'):
            return t
        if self.starts(n, "\\["):
            return ("cat", '"', t, '"')
        return ("debug", t)

    def filestr(self, n):
        t = text_of(n)
        return t if self.starts(n, '"') else ("debug", t)

    # -- negation
    def zero(self, n):
        if self.istok(n, "Integer"):
            return self.eq(n, "0")
        if self.isop(n, "Group", "CodeParser_GroupParen"):
            return len(n.ch) == 3 and self.zero(n.ch[1])
        if self.isop(n, "Prefix", "Minus"):
            return self.zero(n.ch[1])
        return False

    def number(self, n):
        if self.isop(n, "Group", "CodeParser_GroupParen"):
            return len(n.ch) == 3 and self.number(n.ch[1])
        return self.istok(n, "Integer", "Real")

    def negate(self, n, src):
        if self.istok(n, "Integer"):
            return leaf("Integer", "0" if self.eq(n, "0") else ("cat", "-", text_of(n)), src)
        if self.istok(n, "Real"):
            return leaf("Real", ("cat", "-", text_of(n)), src)
        if self.isop(n, "Group", "CodeParser_GroupParen") and len(n.ch) == 3 and (self.zero(n.ch[1]) or self.number(n)):
            return self.negate(n.ch[1], src)
        if self.isop(n, "Prefix", "Minus") and self.zero(n.ch[1]):
            return self.negate(n.ch[1], src)
        t = self.product(n.ch[::2] if self.isop(n, "Infix", "Times") else [n], src)
        return call("Times", (int_(-1),) + t[2], src)

    # -- products
    def factors(self, n, src):
        if self.isop(n, "Prefix", "Minus"):
            x = n.ch[1]
            if self.number(x):
                return [("v", self.negate(x, src))]
            if self.quirk("flatten_times"):
                return [("v", int_(-1))] + self.factors(x, src)
            return [("n", n)]
        if self.isop(n, "Infix", "Times"):
            return [y for x in n.ch[::2] for y in self.factors(x, src)]
        if self.isop(n, "Binary", "Divide") and self.quirk("flatten_times"):
            return self.factors(n.ch[0], src) + [("v", self.recip(n.ch[2], src))]
        return [("n", n)]

    def recip(self, n, src):
        return call("Power", (self.a(n), int_(-1)), src)

    def product(self, ns, src):
        fs = [f for n in ns for f in self.factors(n, src)]
        return call("Times", [x if k == "v" else self.a(self.at(x, "Times")) for k, x in fs], src)

    def at(self, n, name):
        """a ~op~ (op @ x) is read as a ~op~ x"""
        if self.isop(n, "Binary", "CodeParser_BinaryAt") and self.quirk("infix_binary_at") and self.istok(n.ch[0], "Symbol") and self.eq(n.ch[0], name):
            return n.ch[2]
        return n

    # -- groups
    def inside(self, ns):
        out = []
        for n in ns:
            x = self.a(n)
            out += x[2] if x[0] == "Call" and x[1][:3] == ("leaf", "Symbol", "CodeParser`Comma") else (x,)
        return tuple(out)

    # -- a node
    def a(self, n):
        return getattr(self, "a_" + n.k)(n, n.src())

    def a_tok(self, n, src):
        k, t = n.op, text_of(n)
        if k == "PercentPercent":
            return call("Out", [leaf("Integer", ("percents", t))], src)
        for u, h in (("Under", "Blank"), ("UnderUnder", "BlankSequence"), ("UnderUnderUnder", "BlankNullSequence")):
            if k == u:
                return call(h, [], src)
        if k == "UnderDot":
            return call("Optional", [call("Blank", [], src)], src)
        if k == "Hash":
            return call("Slot", [int_(1)], src)
        if k == "HashHash":
            return call("SlotSequence", [int_(1)], src)
        if k == "Percent":
            return call("Out", [], src)
        if k == "Fake_ImplicitOne":
            return leaf("Integer", "1", src)
        if k == "Fake_ImplicitAll":
            return sym("All", src)
        if k in ("Error_PrefixImplicitNull", "Error_InfixImplicitNull"):
            return sym("Null", src)
        if k.startswith("Error_"):
            return ("error", k, t, src)
        if k == "Symbol":
            for s in SPECIAL:
                for x in spellings(s):
                    if self.eq(n, x):
                        return sym(s.strip(), src)
        return leaf(k, t, src)

    def a_Compound(self, n, src):
        x, y = n.ch
        if n.op in ("Blank", "BlankSequence", "BlankNullSequence", "SlotSequence", "Out"):
            return call(n.op, [self.a(y)], src)
        if n.op in ("CodeParser_PatternBlank", "CodeParser_PatternBlankSequence", "CodeParser_PatternBlankNullSequence"):
            return call("Pattern", [self.a(x), self.a(y)], src)
        if n.op == "CodeParser_PatternOptionalDefault":
            return call("Optional", [call("Pattern", [self.a(x), call("Blank", [], y.src())], src)], src)
        if n.op == "Slot":
            return call("Slot", [self.a(y) if y.op == "Integer" else leaf("String", self.symstr(y), y.src())], src)
        raise KeyError(n.op)

    def a_Prefix(self, n, src):
        t, x = n.ch
        if n.op == "Minus":
            return self.negate(x, src)
        if n.op == "Plus":
            while self.isop(x, "Prefix", "Plus"):
                x = x.ch[1]
            return call("Plus", [self.a(x)], src)
        if n.op == "CodeParser_PrefixNot2":
            return call("Not", [call("Not", [self.a(x)])], src, [("PrefixNotNot", "Warning", t.src())])
        if n.op == "CodeParser_PrefixLinearSyntaxBang":
            if self.istok(x, "LinearSyntaxBlob"):
                return ("PrefixNode_PrefixLinearSyntaxBang", (self.a(t), self.a(x)), src)
            return ("AbstractSyntaxError", "LinearSyntaxBang", (self.a(x),), src)
        if n.op == "Get" and self.istok(x, "String"):
            return call("Get", [leaf("String", self.filestr(x), x.src())], src)
        return call(symname(n.op), [self.a(x)], src)

    def a_Postfix(self, n, src):
        x, t = n.ch
        if n.op == "HermitianConjugate":
            return call("ConjugateTranspose", [self.a(x)], src)
        if n.op == "Derivative":
            if t.op == "Boxes_MultiSingleQuote":
                return call(call("Derivative", [leaf("Integer", ("len", text_of(t)))]), [self.a(x)], src)
            k = 1
            while self.isop(x, "Postfix", "Derivative"):
                x, k = x.ch[0], k + 1
            return call(call("Derivative", [int_(k)]), [self.a(x)], src)
        return call(symname(n.op), [self.a(x)], src)

    def a_Binary(self, n, src):
        l, m, r = n.ch
        if n.op == "Divide":
            fs = self.factors(l, src)
            return call("Times", [x if k == "v" else self.a(x) for k, x in fs] + [self.recip(r, src)], src)
        if n.op == "CodeParser_BinaryAt":
            return call(self.a(l), [self.a(r)], src)
        if n.op == "CodeParser_BinarySlashSlash":
            return call(self.a(r), [self.a(l)], src)
        if n.op == "MapApply" and self.quirk("old_at_at_at"):
            return call("Apply", [self.a(l), self.a(r), call("List", [int_(1)])], src)
        if n.op in ("Put", "PutAppend"):
            return call(n.op, [self.a(l), leaf("String", self.filestr(r), r.src()) if self.istok(r, "String") else self.a(r)], src)
        if n.op == "Unset":
            return call("Unset", [self.a(l)], src)
        if n.op == "PatternTest" and self.isop(l, "Binary", "PatternTest"):
            return ("AbstractSyntaxError", "NonAssociativePatternTest", (self.a(l), self.a(r)), src)
        return call(symname(n.op), [self.a(l), self.a(r)], src)

    def a_Infix(self, n, src):
        xs = n.ch[::2]
        if n.op == "CodeParser_InfixInequality":
            return self.inequality(n, src)
        if n.op in ("SameQ", "UnsameQ"):
            return call(n.op, self.all(xs), src)
        if n.op == "Plus":
            out = []
            for t, x in zip([None] + n.ch[1::2], xs):
                if t is not None and t.op in ("Minus", "LongName_Minus"):
                    out.append(self.negate(x, (t.src()[0], x.src()[1])))
                    continue
                x = self.at(x, "Plus")
                while self.isop(x, "Prefix", "Plus"):
                    x = x.ch[1]
                out.append(self.a(x))
            return call("Plus", out, src)
        if n.op == "Times":
            return self.product(xs, src)
        if n.op == "Divisible":
            return call("Divisible", [self.a(self.at(x, "Divisible")) for x in reversed(xs)], src)
        if n.op == "CompoundExpression":
            return call(n.op, [sym("Null", x.src()) if self.istok(x, "Fake_ImplicitNull") else self.a(x) for x in xs], src)
        if n.op == "MessageName":
            iss = [("SyntaxUndocumentedMessageName", "Error", src)] if len(xs) > 3 else []
            return call(n.op, [self.a(xs[0])] + [leaf("String", self.symstr(x), x.src()) if self.istok(x, "String") else self.a(x) for x in xs[1:]], src, iss)
        if n.op == "CodeParser_InfixTilde":
            acc, xs = self.a(xs[0]), xs[1:]
            while xs:
                s = src if len(xs) <= 2 else "Unknown"
                if len(xs) == 1:
                    return ("AbstractSyntaxError", "ExpectedTilde", (acc, self.a(xs[0])), s)
                acc, xs = call(self.a(xs[0]), [acc, self.a(xs[1])], s), xs[2:]
            return acc
        name = symname(n.op).rsplit("`", 1)[-1]
        return call(symname(n.op), [self.a(self.at(x, name)) for x in xs], src)

    def inequality(self, n, src):
        def close(xs, rs, vec):
            if len(set(rs)) == 1 and rs[0] in VECTOR:
                return call(rs[0], [call("List", xs)], src)
            if len(set(rs)) == 1:
                return call(rs[0], xs, src)
            args = [xs[0]]
            for r, x in zip(rs, xs[1:]):
                args += [sym(r), x]
            return call("Developer`VectorInequality" if vec else "Inequality", args, src)
        xs, rs, vec = [self.a(n.ch[0])], [], None
        for t, x in zip(n.ch[1::2], n.ch[2::2]):
            r = INEQ[t.op]
            want = None if r in EITHER else r in VECTOR
            if want is not None and vec is not None and want != vec:
                xs, rs = [close(xs, rs, vec)], []
            xs, rs = xs + [self.a(x)], rs + [r]
            vec = want if want is not None else vec
        return close(xs, rs, vec)

    def a_Ternary(self, n, src):
        l, _, m, _, r = n.ch
        if n.op == "CodeParser_TernaryTilde":
            if self.isop(m, "Infix", "CodeParser_Comma"):
                x = self.a(m)
                return call(("AbstractSyntaxError", "CommaTopLevel", x[2], x[3]), [self.a(l), self.a(r)], src)
            return call(self.a(m), [self.a(l), self.a(r)], src)
        if n.op in ("TagSet", "TagSetDelayed", "Span"):
            return call(n.op, [self.a(l), self.a(m), self.a(r)], src)
        if n.op == "TagUnset":
            return call(n.op, [self.a(l), self.a(m)], src)
        if n.op == "CodeParser_TernaryOptionalPattern":
            return call("Optional", [call("Pattern", [self.a(l), self.a(m)]), self.a(r)], src)
        raise KeyError(n.op)

    def a_PrefixBinary(self, n, src):
        _, x, y = n.ch
        if self.isop(y, "Prefix", "DifferentialD", "CapitalDifferentialD"):
            y = y.ch[1]
        return call(n.op, [self.a(x), self.a(y)], src)

    def a_Group(self, n, src):
        if n.op in BRACKET_ERR:
            xs = n.ch[1:-1]
            if n.op == "CodeParser_GroupParen" and len(xs) == 1 and not self.isop(xs[0], "Infix", "CodeParser_Comma"):
                return self.a(xs[0])
            if len(xs) == 1 and self.isop(xs[0], "Infix", "CodeParser_Comma"):
                xs = xs[0].ch[::2]
            return ("AbstractSyntaxError", BRACKET_ERR[n.op], self.all(xs), src)
        return call(symname(n.op), self.inside(n.ch[1:-1]), src)

    def a_GroupMissingCloser(self, n, src):
        return ("GroupMissingCloser", n.op, self.inside(n.ch[1:]), src)

    def a_GroupMissingOpener(self, n, src):
        return ("GroupMissingOpener", n.op, self.inside(n.ch[:-1]), src)

    def a_SyntaxError(self, n, src):
        return ("SyntaxError", n.op, (self.a(n.ch[0]), self.a(n.ch[2])), src)

    def strange(self, h, how):
        """the issue a call with this head raises: its tag and severity"""
        comp = ("Blank", "BlankSequence", "BlankNullSequence", "CodeParser_PatternBlank", "CodeParser_PatternBlankSequence",
                "CodeParser_PatternBlankNullSequence", "Slot")
        if self.istok(h, "HashHash") or self.isop(h, "Compound", "SlotSequence"):
            return ("StrangeCallSlotSequence", "Error")
        if self.istok(h, "Symbol", "Hash", "Under", "UnderUnder", "UnderUnderUnder", "Percent", "PercentPercent") or self.isop(h, "Compound", "Out", *comp) \
                or h.k in ("Call", "CallOpen") or self.isop(h, "Group", "CodeParser_GroupParen", "List", "Association"):
            return None
        if how == "call":
            if self.istok(h, "String") or self.isop(h, "Binary", "PatternTest") or self.isop(h, "Postfix", "Function", "Derivative"):
                return None
            if self.isop(h, "Infix", "CompoundExpression") or h.k == "Group":
                return ("StrangeCall", "Warning")
            return ("StrangeCall", "Error")
        if self.isop(h, "Postfix", "Transpose"):
            return None
        if self.istok(h, "LinearSyntaxBlob") or self.isop(h, "Prefix", "CodeParser_PrefixLinearSyntaxBang") or self.isop(h, "Infix", "CompoundExpression"):
            return ("StrangeCall", "Remark")
        if h.k == "Group":
            return ("StrangeCall", "Warning")
        return ("StrangeCall", "Error")

    def a_Call(self, n, src):
        h = self.a(n.head)
        iss = lambda how: [self.strange(n.head, how) + (n.ch[0].src(),)] if self.strange(n.head, how) else []
        if n.op == "CodeParser_GroupSquare":
            if len(n.ch) == 3 and self.isop(n.ch[1], "Group", "CodeParser_GroupSquare"):
                return call("Part", (h,) + self.inside(n.ch[1].ch[1:-1]), src, iss("part"))
            return call(h, self.inside(n.ch[1:-1]), src, iss("call"))
        if n.op == "CodeParser_GroupTypeSpecifier":
            return call(call("TypeSpecifier", [h]), self.inside(n.ch[1:-1]), src,
                        [] if self.istok(n.head, "String") else [("StrangeCall", "Error", n.head.src())])
        return call("Part", (h,) + self.inside(n.ch[1:-1]), src, iss("part"))

    def a_CallOpen(self, n, src):
        h, xs = self.a(n.head), self.inside(n.ch[1:])
        if n.op == "CodeParser_GroupSquare":
            return ("CallMissingCloser", h, xs, src, ())
        if n.op == "CodeParser_GroupTypeSpecifier":
            return ("CallMissingCloser", call("TypeSpecifier", [h]), xs, src, ())
        return ("CallMissingCloser", sym("Part"), (h,) + xs, src, ())


# ---------------------------------------------------------------- comparison
PERCENT = ("%", "\\.25", "\\:0025", "\\|000025", "\\045", "\\[RawPercent]")


def summands(t):
    if isinstance(t, Term) and t.op in ("Add", "AddUnchecked", "AddWithOverflow"):
        return [y for x in t.args for y in summands(x)]
    return [t]


def same_text(e, g):
    if isinstance(e, tuple) and e and e[0] == "percents":
        if isinstance(g, tuple) and g[0] == "num" and isinstance(g[1], Term) and g[1].op == "Neg":
            xs = [x for x in summands(g[1].args[0]) if x != 0]
            return len(xs) == len(PERCENT) and {x.id if isinstance(x, Sym) else x for x in xs} == {("count", e[1], p) for p in PERCENT}
        return False
    if isinstance(e, tuple) and e and e[0] == "len":
        return isinstance(g, tuple) and g[0] == "num" and isinstance(g[1], Sym) and isinstance(g[1].id, tuple) and g[1].id[0] == "len" \
            and strip(g[1].id[1]) == strip(e[1])
    return e == g


def strip(x):
    x = x.id if isinstance(x, Sym) else x
    while isinstance(x, tuple) and len(x) == 2 and x[0] in ("*", "obj"):
        x = x[1].id if isinstance(x[1], Sym) else x[1]
    return x


def same(e, g):
    if isinstance(e, tuple) and isinstance(g, tuple) and len(e) == len(g) and e and e[0] in ("leaf", "error") and g[0] == e[0]:
        return e[1] == g[1] and same_text(e[2], g[2]) and e[3] == g[3]
    if isinstance(e, tuple) and isinstance(g, tuple):
        return len(e) == len(g) and all(same(x, y) for x, y in zip(e, g))
    return e == g


def unresolved(g):
    if isinstance(g, tuple):
        return any(unresolved(x) for x in g)
    if isinstance(g, Sym):
        return not (isinstance(g.id, tuple) and g.id[0] in ("text", "start", "end", "count", "len"))
    if isinstance(g, Term):
        return any(unresolved(x) for x in g.args)
    return g is None or g == "?" or isinstance(g, (Adt, Ref))


def brief(g):
    """an expression, without sources"""
    if not isinstance(g, tuple) or not g:
        return str(g)
    if g[0] in ("leaf", "error"):
        return "%s" % (g[2],) if not isinstance(g[2], tuple) else "%s(%s)" % (g[2][0], ", ".join(map(str, g[2][1:])))
    if g[0] in ("Call", "CallMissingCloser"):
        return "%s%s[%s]" % ("" if g[0] == "Call" else "unclosed ", brief(g[1]), ", ".join(brief(x) for x in g[2]))
    if g[0] == "PrefixNode_PrefixLinearSyntaxBang":
        return "%s[%s]" % (g[0], ", ".join(brief(x) for x in g[1]))
    if len(g) == 4 and isinstance(g[2], tuple):
        return "%s %s[%s]" % (g[0], g[1], ", ".join(brief(x) for x in g[2]))
    return "?"


def answers(st):
    a = {}
    for e in st.events():
        if e[0] == "texteq":
            a[("eq", e[1], e[2])] = bool(e[3])
        elif e[0] == "textstarts":
            a[("starts", e[1], e[2])] = bool(e[3])
    for q in QUIRKS:
        r = st.cons.get(Sym(("quirk", q)))
        if r is not None and len(r) == 1 and r[0][0] == r[0][1]:
            a[("quirk", q)] = bool(r[0][0])
    return a


def expected(n, ans):
    """every expression the node denotes under some completion of the answers"""
    work, out = [dict(ans)], []
    while work:
        a = work.pop()
        try:
            out.append((a, Oracle(a).a(n)))
        except Ask as e:
            for v in (True, False):
                b = dict(a)
                b[e.q] = v
                work.append(b)
            if len(work) > 4000:
                raise Limit("questions")
    return out


# ---------------------------------------------------------------- cases
def cases(F):
    """the constructs examined: (name, builder)"""
    out = []

    def case(name, f):
        mk = Mk(F)
        out.append((name, f(mk)))
    ops = lambda e: [v["name"] for v in F.adts[OPS + e]["variants"]]
    S = lambda m, t="x": m.tok("Symbol", t)
    at = lambda m, f="g": m.op("Binary", "CodeParser_BinaryAt", m.tok("Symbol", f), m.tok("At"), m.list())
    infix = lambda m, op, sep, *xs: m.op("Infix", op, *[y for i, x in enumerate(xs) for y in (([m.tok(sep)] if i else []) + [x])])
    comma = lambda m, *xs: infix(m, "CodeParser_Comma", "Comma", *xs)
    # tokens
    for k in kind_names(F):
        case("token %s" % k, lambda m: m.tok(k))
    # compound
    for k in ops("CompoundOperator"):
        if k in ("Blank", "BlankSequence", "BlankNullSequence"):
            case("Compound %s" % k, lambda m: m.op("Compound", k, m.tok({"Blank": "Under", "BlankSequence": "UnderUnder"}.get(k, "UnderUnderUnder")), S(m)))
        elif k == "Slot":
            for t in ("Integer", "Symbol", "String"):
                case("Compound Slot %s" % t, lambda m: m.op("Compound", k, m.tok("Hash"), m.tok(t)))
        elif k in ("SlotSequence", "Out"):
            case("Compound %s" % k, lambda m: m.op("Compound", k, m.tok("HashHash" if k == "SlotSequence" else "Percent"), m.tok("Integer")))
        elif k == "CodeParser_PatternOptionalDefault":
            case("Compound %s" % k, lambda m: m.op("Compound", k, S(m), m.tok("UnderDot")))
        else:
            u = {"CodeParser_PatternBlank": ("Under", "Blank"), "CodeParser_PatternBlankSequence": ("UnderUnder", "BlankSequence")}.get(k, ("UnderUnderUnder", "BlankNullSequence"))
            case("Compound %s token" % k, lambda m: m.op("Compound", k, S(m), m.tok(u[0])))
            case("Compound %s compound" % k, lambda m: m.op("Compound", k, S(m), m.op("Compound", u[1], m.tok(u[0]), S(m, "y"))))
    # operands of a minus sign
    negs = [("list", lambda m: m.list()), ("Integer", lambda m: m.tok("Integer")), ("Real", lambda m: m.tok("Real")), ("Symbol", S), ("String", lambda m: m.tok("String")),
            ("Rational", lambda m: m.tok("Rational")),
            ("(Integer)", lambda m: m.paren(m.tok("Integer"))), ("(Real)", lambda m: m.paren(m.tok("Real"))), ("((Integer))", lambda m: m.paren(m.paren(m.tok("Integer")))),
            ("(x)", lambda m: m.paren(S(m))), ("()", lambda m: m.paren()), ("(a b)", lambda m: m.paren(S(m), m.tok("Integer"))),
            ("-Integer", lambda m: m.neg(m.tok("Integer"))), ("-Real", lambda m: m.neg(m.tok("Real"))), ("-x", lambda m: m.neg(S(m))),
            ("(-Integer)", lambda m: m.paren(m.neg(m.tok("Integer")))), ("-(Integer)", lambda m: m.neg(m.paren(m.tok("Integer")))),
            ("--Integer", lambda m: m.neg(m.neg(m.tok("Integer")))),
            ("x*y", lambda m: m.times(S(m), m.list())), ("x y", lambda m: m.times(S(m), m.list(), m.tok("Integer"), sep="Fake_ImplicitTimes")),
            ("(x*y)", lambda m: m.paren(m.times(S(m), m.list()))), ("x*(y*z)", lambda m: m.times(S(m), m.paren(m.times(m.list(), S(m, "z"))))),
            ("x/y", lambda m: m.op("Binary", "Divide", S(m), m.tok("Slash"), m.list())),
            ("x+y", lambda m: infix(m, "Plus", "Plus", S(m), m.list())), ("+x", lambda m: m.op("Prefix", "Plus", m.tok("Plus"), S(m))),
            ("g@x", at), ("Times@x", lambda m: at(m, "Times")), ("Plus@x", lambda m: at(m, "Plus"))]
    for k in ops("PrefixOperator"):
        if k == "Minus":
            for nm, f in negs:
                case("Prefix Minus %s" % nm, lambda m: m.neg(f(m)))
        elif k == "Plus":
            plus = lambda m, x: m.op("Prefix", "Plus", m.tok("Plus"), x)
            case("Prefix Plus", lambda m: plus(m, m.list()))
            case("Prefix Plus Plus", lambda m: plus(m, plus(m, plus(m, S(m)))))
            case("Prefix Plus Minus", lambda m: plus(m, m.neg(S(m))))
        elif k == "CodeParser_PrefixLinearSyntaxBang":
            case("Prefix %s blob" % k, lambda m: m.op("Prefix", k, m.tok("LinearSyntax_Bang"), m.tok("LinearSyntaxBlob")))
            case("Prefix %s other" % k, lambda m: m.op("Prefix", k, m.tok("LinearSyntax_Bang"), m.list()))
        else:
            for nm, f in (("list", lambda m: m.list()), ("Symbol", S), ("String", lambda m: m.tok("String")), ("Integer", lambda m: m.tok("Integer")),
                          ("null", lambda m: m.tok("Error_ExpectedOperand"))):
                case("Prefix %s %s" % (k, nm), lambda m: m.op("Prefix", k, m.tok("LessLess" if k == "Get" else "Bang"), f(m)))
    for k in ops("PostfixOperator"):
        if k == "Derivative":
            d = lambda m, x: m.op("Postfix", k, x, m.tok("SingleQuote"))
            case("Postfix Derivative", lambda m: d(m, m.list()))
            case("Postfix Derivative^2", lambda m: d(m, d(m, S(m))))
            case("Postfix Derivative^4", lambda m: d(m, d(m, d(m, d(m, m.list())))))
            case("Postfix Derivative multi", lambda m: m.op("Postfix", k, m.list(), m.tok("Boxes_MultiSingleQuote")))
        else:
            for nm, f in (("list", lambda m: m.list()), ("Symbol", S)):
                case("Postfix %s %s" % (k, nm), lambda m: m.op("Postfix", k, f(m), m.tok("Bang")))
    for k in ops("BinaryOperator"):
        if k == "Unset":
            case("Binary Unset", lambda m: m.op("Binary", k, m.list(), m.tok("Equal"), m.tok("Dot")))
            continue
        for nm, l, r in (("list, Symbol", lambda m: m.list(), S), ("Symbol, list", S, lambda m: m.list()), ("Integer, String", lambda m: m.tok("Integer"), lambda m: m.tok("String")),
                         ("String, Integer", lambda m: m.tok("String"), lambda m: m.tok("Integer")),
                         ("x, error", S, lambda m: m.tok("Error_ExpectedOperand")),
                         ("nested", lambda m: m.op("Binary", k, S(m), m.tok("Slash"), m.list()), lambda m: m.op("Binary", k, S(m), m.tok("Slash"), m.list()))):
            case("Binary %s %s" % (k, nm), lambda m: m.op("Binary", k, l(m), m.tok("At" if k == "CodeParser_BinaryAt" else "Slash"), r(m)))
        if k == "Divide":
            for nm, f in negs:
                case("Divide %s over x" % nm, lambda m: m.op("Binary", k, f(m), m.tok("Slash"), S(m)))
                case("Divide -%s over x" % nm, lambda m: m.op("Binary", k, m.neg(f(m)), m.tok("Slash"), S(m)))
                case("Divide x over %s" % nm, lambda m: m.op("Binary", k, S(m), m.tok("Slash"), f(m)))
    seps = {"CompoundExpression": "Semi", "MessageName": "ColonColon", "CodeParser_InfixTilde": "Tilde"}
    for k in ops("InfixOperator"):
        if k == "CodeParser_InfixInequality":
            continue
        sep = seps.get(k, "Plus")
        case("Infix %s 2" % k, lambda m: infix(m, k, sep, m.list(), S(m)))
        case("Infix %s 3" % k, lambda m: infix(m, k, sep, S(m), m.list(), m.tok("Integer")))
        case("Infix %s at" % k, lambda m: infix(m, k, sep, at(m, symname(k).rsplit("`", 1)[-1]), S(m), at(m), at(m, symname(k))))
        case("Infix %s nested" % k, lambda m: infix(m, k, sep, infix(m, k, sep, S(m), m.list()), S(m, "z")))
        case("Infix %s 5" % k, lambda m: infix(m, k, sep, S(m), m.tok("String"), m.list(), m.tok("Real"), S(m, "z")))
    case("CompoundExpression null", lambda m: infix(m, "CompoundExpression", "Semi", S(m), m.list(), m.tok("Fake_ImplicitNull")))
    case("CompoundExpression null first", lambda m: infix(m, "CompoundExpression", "Semi", m.tok("Fake_ImplicitNull"), m.tok("Fake_ImplicitNull"), S(m)))
    for k in (2, 3, 4, 5, 6, 7):
        case("InfixTilde %d" % k, lambda m: infix(m, "CodeParser_InfixTilde", "Tilde", *[[m.list, lambda: S(m), lambda: m.tok("Integer")][i % 3]() for i in range(k)]))
        case("MessageName %d" % k, lambda m: infix(m, "MessageName", "ColonColon", S(m), *[[lambda: m.tok("String"), m.list][i % 2]() for i in range(min(k, 5) - 1)]))
    for nm, f in negs:
        for t in ("Plus", "Minus", "LongName_Minus", "LongName_ImplicitPlus"):
            if t in kind_names(F):
                case("x %s %s" % (t, nm), lambda m: m.op("Infix", "Plus", S(m), m.tok(t), f(m)))
        case("%s + y" % nm, lambda m: infix(m, "Plus", "Plus", f(m), S(m, "y")))
        case("%s * y" % nm, lambda m: m.times(f(m), S(m, "y")))
        case("x * -%s" % nm, lambda m: m.times(S(m), m.neg(f(m))))
    case("sum of four", lambda m: m.op("Infix", "Plus", S(m), m.tok("Minus"), m.tok("Integer"), m.tok("Plus"), m.list(), m.tok("Minus"), m.times(S(m), m.list())))
    # inequalities
    for t in INEQ:
        if t in kind_names(F):
            case("inequality %s" % t, lambda m: infix(m, "CodeParser_InfixInequality", t, S(m), m.list()))
            case("inequality %s twice" % t, lambda m: infix(m, "CodeParser_InfixInequality", t, S(m), m.list(), m.tok("Integer")))
    for ts in (("Less", "Greater"), ("Less", "EqualEqual", "Less"), ("LongName_VectorLess", "Less"), ("Less", "LongName_VectorLess"), ("LongName_VectorLess", "LongName_VectorGreater"),
               ("LongName_VectorLess", "LongName_GreaterTilde"), ("LongName_GreaterTilde", "LongName_VectorLess"), ("LongName_GreaterTilde", "Less", "LongName_VectorLess"),
               ("LongName_VectorLess", "Less", "LongName_GreaterTilde", "Less"), ("LongName_VectorLess", "LongName_VectorLess", "LongName_LessLess", "LongName_LessLess"),
               ("Less", "LongName_LessSlantEqual"), ("LessEqual", "LongName_LessSlantEqual", "LongName_LessEqual"), ("LongName_NotLess", "LongName_NotGreater")):
        case("inequality %s" % " ".join(ts), lambda m: m.op("Infix", "CodeParser_InfixInequality", S(m), *[y for i, t in enumerate(ts) for y in (m.tok(t), [m.list, lambda: m.tok("Integer")][i % 2]())]))
    # ternary, prefix binary
    for k in ops("TernaryOperator"):
        if k == "TagUnset":
            case("Ternary TagUnset", lambda m: m.op("Ternary", k, S(m), m.tok("SlashColon"), m.list(), m.tok("Equal"), m.tok("Dot")))
            continue
        case("Ternary %s" % k, lambda m: m.op("Ternary", k, S(m), m.tok("Tilde"), m.list(), m.tok("Tilde"), m.tok("Integer")))
        if k == "CodeParser_TernaryTilde":
            case("Ternary %s comma" % k, lambda m: m.op("Ternary", k, S(m), m.tok("Tilde"), comma(m, m.list(), S(m, "y")), m.tok("Tilde"), m.tok("Integer")))
    for k in ops("PrefixBinaryOperator"):
        for d in ("DifferentialD", "CapitalDifferentialD"):
            case("PrefixBinary %s %s" % (k, d), lambda m: m.op("PrefixBinary", k, m.tok("LongName_Integral"), S(m), m.op("Prefix", d, m.tok("LongName_DifferentialD"), m.list())))
        case("PrefixBinary %s" % k, lambda m: m.op("PrefixBinary", k, m.tok("LongName_Integral"), m.list(), S(m)))
        case("PrefixBinary %s Not" % k, lambda m: m.op("PrefixBinary", k, m.tok("LongName_Integral"), m.list(), m.op("Prefix", "Not", m.tok("Bang"), S(m))))
    # groups
    bodies = [("0", lambda m: []), ("1", lambda m: [S(m)]), ("list", lambda m: [m.list()]), ("2", lambda m: [S(m), m.tok("Error_UnexpectedCloser")]),
              ("3", lambda m: [m.tok("Integer"), m.tok("Error_UnexpectedCloser"), m.list()]),
              ("comma", lambda m: [comma(m, S(m), m.list(), m.tok("Integer"))]), ("comma null", lambda m: [comma(m, S(m), m.tok("Error_InfixImplicitNull"))]),
              ("comma and more", lambda m: [comma(m, S(m), m.list()), m.tok("Error_UnexpectedCloser")]), ("(comma)", lambda m: [m.paren(comma(m, S(m), m.list()))])]
    # comment groups do not reach abstraction
    for k in ops("GroupOperator"):
        if k == "Token_Comment":
            continue
        for nm, f in bodies:
            case("Group %s %s" % (k, nm), lambda m: m.op("Group", k, m.tok("OpenCurly"), *f(m), m.tok("CloseCurly")))
            case("GroupMissingCloser %s %s" % (k, nm), lambda m: m.op("GroupMissingCloser", k, m.tok("OpenCurly"), *f(m)))
            case("GroupMissingOpener %s %s" % (k, nm), lambda m: m.op("GroupMissingOpener", k, *f(m), m.tok("CloseCurly")))
    # calls
    sq = lambda m, *xs: m.op("Group", "CodeParser_GroupSquare", m.tok("OpenSquare"), *xs, m.tok("CloseSquare"))
    args = bodies + [("[x]", lambda m: [sq(m, S(m))]), ("[]", lambda m: [sq(m)]), ("[x,y]", lambda m: [sq(m, comma(m, S(m), m.list()))]), ("[x] more", lambda m: [sq(m, S(m)), m.tok("Error_UnexpectedCloser")]),
                     ("[x],y", lambda m: [comma(m, sq(m, S(m)), S(m))])]
    for k in ops("CallOperator"):
        for nm, f in args:
            case("Call %s %s" % (k, nm), lambda m: m.call(S(m, "f"), k, m.tok("OpenSquare"), *f(m), m.tok("CloseSquare")))
            case("unclosed Call %s %s" % (k, nm), lambda m: m.call(S(m, "f"), k, m.tok("OpenSquare"), *f(m), closed=False))
        heads = [(t, lambda m, t=t: m.tok(t)) for t in ("String", "Integer", "Hash", "HashHash", "Under", "UnderUnder", "UnderUnderUnder", "Percent", "PercentPercent", "LinearSyntaxBlob", "Error_ExpectedOperand")]
        heads += [("Compound " + o, lambda m, o=o: m.op("Compound", o, m.tok("Hash"), m.tok("Integer"))) for o in ("SlotSequence", "Slot", "Out", "Blank", "BlankSequence", "BlankNullSequence")]
        heads += [("Compound " + o, lambda m, o=o: m.op("Compound", o, S(m), m.tok("Under"))) for o in ("CodeParser_PatternBlank", "CodeParser_PatternBlankSequence", "CodeParser_PatternBlankNullSequence")]
        heads += [("Group " + o, lambda m, o=o: m.op("Group", o, m.tok("OpenCurly"), S(m), m.tok("CloseCurly"))) for o in ("CodeParser_GroupParen", "List", "Association", "AngleBracket")]
        heads += [("call", lambda m: m.call(S(m), "CodeParser_GroupSquare", m.tok("OpenSquare"), m.list(), m.tok("CloseSquare"))),
                  ("PatternTest", lambda m: m.op("Binary", "PatternTest", S(m), m.tok("Question"), m.list())), ("Rule", lambda m: m.op("Binary", "Rule", S(m), m.tok("MinusGreater"), m.list())),
                  ("Function", lambda m: m.op("Postfix", "Function", m.list(), m.tok("Amp"))), ("Derivative", lambda m: m.op("Postfix", "Derivative", m.list(), m.tok("SingleQuote"))),
                  ("Transpose", lambda m: m.op("Postfix", "Transpose", m.list(), m.tok("LongName_Transpose"))), ("Factorial", lambda m: m.op("Postfix", "Factorial", m.list(), m.tok("Bang"))),
                  ("bang", lambda m: m.op("Prefix", "CodeParser_PrefixLinearSyntaxBang", m.tok("LinearSyntax_Bang"), m.tok("LinearSyntaxBlob"))),
                  ("CompoundExpression", lambda m: infix(m, "CompoundExpression", "Semi", S(m), m.list())), ("Plus", lambda m: infix(m, "Plus", "Plus", S(m), m.list())),
                  ("-x", lambda m: m.neg(S(m)))]
        for nm, f in heads:
            case("Call %s of %s" % (k, nm), lambda m: m.call(f(m), k, m.tok("OpenSquare"), S(m), m.tok("CloseSquare")))
            if k == "CodeParser_GroupSquare":
                case("Part of %s" % nm, lambda m: m.call(f(m), k, m.tok("OpenSquare"), sq(m, S(m)), m.tok("CloseSquare")))
    for k in ("ExpectedSymbol", "ExpectedSet", "ExpectedTilde"):
        case("SyntaxError %s" % k, lambda m: m.err(k, S(m), m.tok("Tilde"), m.list()))
    return out


def rule_abstraction(ctx):
    F = ctx.facts()
    ctx.rule("every construct is given to abstract_ with symbolic token texts, sources and quirk settings; on every path the expression built (heads, "
             "arguments in order, token texts, sources, abstract syntax errors, issues) is the one the construct denotes under the answers the path "
             "assumed about texts and quirks")
    root = fn_of(F, "abstract_cst::abstract_")
    if not root:
        raise Exception("abstract_ not found")
    cs = cases(F)
    done = 0
    for name, n in cs:
        I = make_interp(F, policy(F, root), loop_limit=12)
        I.max_rec = 12
        I.max_states = 8000
        st = State()
        for q in QUIRKS:
            st.cons[Sym(("quirk", q))] = ((0, 1),)
        try:
            outs = I.run(root, [build(F, st, n)], st)
        except Limit as e:
            ctx.undec("%s: %s" % (name, e))
            continue
        ctx.count("paths", len(outs))
        bad, und = None, None
        for o in outs:
            if o.kind == "infeasible":
                continue
            ans = answers(o.state)
            exp = expected(n, ans)
            if o.kind == "return":
                got = norm_ast(F, I, o.state, o.ret)
                if unresolved(got):
                    und = und or "not resolved: %s" % brief(got)
                    continue
                w = next((e for a, e in exp if not same(e, got)), None)
                if w is not None:
                    bad = bad or (brief(got), brief(w), ans, got, w)
            elif o.kind == "panic":
                bad = bad or ("a panic (%s)" % o.why, brief(exp[0][1]), ans, None, None)
            else:
                und = und or "%s %s" % (o.kind, o.why)
        if bad and not und:
            d = " (only the sources or issues differ)" if bad[0] == bad[1] else ""
            ctx.bad("abs:" + name, "%s: %s is abstracted to %s, not %s%s" % (F.loc(root), n.show(), bad[0], bad[1], d))
        elif und:
            ctx.undec("%s: %s" % (name, und))
        else:
            done += 1
            ctx.ok()
    ctx.count("constructs", len(cs))
    ctx.floor("constructs decided", done, 400)
