"""Transitive write/call effects of functions, by type and field (flow-insensitive mod analysis)."""


class Effects:
    def __init__(self, F):
        self.F = F
        self.direct = {}
        self.calls = {}
        self.trait_impls = {}
        for im in F.impls:
            if im["trait"]:
                for n, p in im["items"]:
                    self.trait_impls.setdefault(im["trait"] + "::" + n, []).append(p)
        self.tables = self._tables()
        for k in F.fns:
            self._scan(k)
        self._trans = {}

    def _tables(self):
        """functions stored in constants, the possible targets of calls through pointers"""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if isinstance(x.get("fn"), str) and x["fn"] in self.F.fns:
                    out.add(x["fn"])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for c in self.F.consts.values():
            walk(c.get("v"))
        return out

    def targets(self, fn, t):
        """functions a call through a pointer may reach"""
        return {g for g in self.tables if self.F.fns[g]["argc"] == len(t["a"]) and self._fits(fn, t, g)}

    def _fits(self, fn, t, g):
        """could g be called here, going by the types of the plain arguments"""
        F = self.F
        for i, a in enumerate(t["a"]):
            pl = a.get("m") or a.get("c")
            if isinstance(pl, list) and len(pl) == 1:
                x, y = F.types[F.fns[fn]["locals"][pl[0]]], F.types[F.fns[g]["locals"][i + 1]]
                if x.get("k") != y.get("k") or x.get("adt") != y.get("adt"):
                    return False
                if x.get("k") == "ref" and F.types[x["t"]].get("adt") != F.types[y["t"]].get("adt"):
                    return False
        return True

    def place_ty(self, fn, pl):
        """[(type index, projection element)...] chain of types walked by the place"""
        F = self.F
        t = F.fns[fn]["locals"][pl[0]]
        chain = []
        var = None
        for e in pl[1:]:
            ty = F.types[t]
            chain.append((t, e, var))
            nt = None
            if e == "*":
                if ty["k"] in ("ref", "ptr"):
                    nt = ty["t"]
                elif ty["k"] == "adt" and ty["adt"].endswith("boxed::Box"):
                    nt = ty["args"][0]
                var = None
            elif isinstance(e, int):
                if ty["k"] == "adt":
                    a = F.adts.get(ty["adt"])
                    if a and a["variants"]:
                        v = a["variants"][var or 0]
                        if e < len(v["fields"]):
                            nt = v["fields"][e][1]
                            nt = self.subst(nt, ty)
                elif ty["k"] == "tuple":
                    nt = ty["args"][e] if e < len(ty["args"]) else None
                var = None
            elif isinstance(e, list) and e[0] == "v":
                var = e[1]
                nt = t
            elif isinstance(e, list) and e[0] in ("i", "c"):
                nt = ty.get("t")
            elif isinstance(e, list):
                nt = t
            if nt is None:
                return chain, None
            t = nt
        return chain, t

    def subst(self, nt, adt_ty):
        ty = self.F.types[nt]
        if ty["k"] == "param" and len(adt_ty.get("args", [])) == 1:
            return adt_ty["args"][0]
        return nt

    def field(self, fn, pl):
        """the outermost (adt, field) reached after the last deref, or None if no field"""
        chain, _ = self.place_ty(fn, pl)
        last = None
        seen_deref = False
        for t, e, var in chain:
            if e == "*":
                last = None
                seen_deref = True
            elif isinstance(e, int) and last is None:
                ty = self.F.types[t]
                if ty["k"] == "adt":
                    a = self.F.adts.get(ty["adt"])
                    if a and a["variants"] and e < len(a["variants"][var or 0]["fields"]):
                        last = (ty["adt"], a["variants"][var or 0]["fields"][e][0])
        return seen_deref, last, (self.F.types[chain[-1][0]]["s"] if chain else None)

    def _scan(self, fn):
        f = self.F.fns[fn]
        mods = set()
        calls = set()
        for b in f["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] == "=":
                    pl = s[1]
                    if "*" in pl:
                        d, fld, _ = self.field(fn, pl)
                        if fld:
                            mods.add(fld)
                        else:
                            _, ty = self.place_ty(fn, pl)
                            t = self.F.types[ty] if ty is not None else {"k": "?", "s": "?"}
                            mods.add(("*", t.get("adt", t["s"])))
                    rv = s[2]
                    if rv[0] == "ref" and rv[1] and "*" in rv[2]:
                        d, fld, _ = self.field(fn, rv[2])
                        if fld:
                            mods.add(fld)
                    if rv[0] == "agg" and rv[1][0] == "closure":
                        calls.add(rv[1][1])
                    self._fnops(rv, calls)
            t = b["t"]
            if t["k"] == "call":
                k = t["f"].get("k")
                if k and "fn" in k:
                    n = k.get("res") or k["fn"]
                    calls.add(n)
                    if k.get("virt") or k.get("res") is None:
                        for p in self.trait_impls.get(k["fn"], []):
                            calls.add(p)
                else:
                    calls.add("<ptr>")
                    calls |= self.targets(fn, t)
                for a in t["a"]:
                    self._fnop(a, calls)
                if "*" in t["d"]:
                    d, fld, _ = self.field(fn, t["d"])
                    if fld:
                        mods.add(fld)
        self.direct[fn] = mods
        self.calls[fn] = calls

    def _fnop(self, op, calls):
        k = op.get("k") if isinstance(op, dict) else None
        if k and "fn" in k:
            calls.add(k.get("res") or k["fn"])

    def _fnops(self, rv, calls):
        for x in rv[1:]:
            if isinstance(x, dict):
                self._fnop(x, calls)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict):
                        self._fnop(y, calls)

    def reach(self, fn):
        """all functions transitively callable from fn (incl. itself)"""
        if fn in self._trans:
            return self._trans[fn]
        seen = set()
        todo = [fn]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for c in self.calls.get(x, ()):
                if c not in seen:
                    todo.append(c)
        self._trans[fn] = seen
        return seen

    def mods(self, fn):
        out = set()
        for x in self.reach(fn):
            out |= self.direct.get(x, set())
        return out
