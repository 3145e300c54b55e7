"""Which key of a JSON value ends up where.

Keys(fx).trace(f, eid) follows a value backwards, through variables, copies,
containers and helper functions, to the places where it is taken out of a JSON
value, and returns the access paths (tuples of keys). pairs(f) are the places
where a value is stored under a key."""
import engine as E
import facts as F

ACCESS = {"operator[]", "at", "find", "value", "operator/"}
STORE = {"emplace", "insert", "push_back", "emplace_back", "insert_or_assign",
         "try_emplace", "assign", "append"}
SKIPARG = ("std::function<", "(lambda ")


def last(fn):
    return fn.rsplit("::", 1)[-1]


class Keys:

    def __init__(self, fx, stop=()):
        self.fx = fx
        self.stop = stop
        self.st = {}
        self.memo = {}
        self.sums = {}
        self.busy = set()

    def outer(self, f):
        n = 0
        while f.kind == "lambda" and f.par and self.fx.has(f.par) and n < 10:
            f = self.fx.func(f.par)
            n += 1
        return f

    def nest(self, f):
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            out.append(g)
            todo += [h for h in self.fx.lambdas_of(g) if h not in out]
        return out

    # ---- stores
    def stores(self, f):
        o = self.outer(f)
        s = self.st.get(o.key)
        if s is not None:
            return s
        s = self.st[o.key] = {}
        for g in self.nest(o):
            for e in g.elems():
                if e["op"] == "decl":
                    for d in e["d"]:
                        if d.get("i") is not None:
                            s.setdefault(d["v"], []).append((g, d["i"]))
                            for b in d.get("bs", ()):
                                s.setdefault(b, []).append((g, d["i"]))
                elif e["op"] == "asg":
                    v = self.var(g, e["a"][0])
                    if v:
                        s.setdefault(v, []).append((g, e["a"][1]))
                elif e["op"] == "call" and e.get("o") is not None and (
                        e.get("opk") == "=" or
                        last(e.get("fn", "")) in STORE):
                    v = self.var(g, e["o"])
                    if v:
                        for a in e.get("a", ()):
                            s.setdefault(v, []).append((g, a))
        return s

    def var(self, f, eid):
        n = 0
        while eid is not None and eid >= 0 and n < 30:
            n += 1
            e = f.el.get(eid)
            if e is None:
                return None
            if e["op"] == "ref":
                return e.get("v") if e.get("k") not in ("f", "e") else None
            if e["op"] == "mem":
                eid = e.get("b")
            elif e["op"] in ("un", "cast", "asg", "sub", "idx") and \
                    e.get("a"):
                eid = e["a"][0]
            elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
                eid = e["a"][0]
            elif e["op"] == "call" and e.get("o") is not None:
                eid = e["o"]
            elif e["op"] == "ctor" and len(e.get("a", ())) == 1:
                eid = e["a"][0]
            else:
                return None
        return None

    # ---- constants
    def const(self, f, eid, env=None, depth=0):
        n = 0
        while eid is not None and eid >= 0 and n < 30:
            n += 1
            e = f.el.get(eid)
            if e is None:
                return None
            op = e["op"]
            if op in ("str", "chr", "int"):
                return e.get("val")
            if op == "ref":
                if e.get("k") == "e":
                    return e.get("val")
                v = e.get("v")
                if env and v in env:
                    g, i, en = env[v]
                    return self.const(g, i, en, depth + 1) \
                        if depth < 8 else None
                d = self.fx.vars.get(v)
                if d:
                    xs = [x for x in d["e"] if x["op"] in (
                        "str", "int", "chr")]
                    if len(xs) == 1:
                        return xs[0].get("val")
                    if e.get("val") is not None:
                        return e["val"]
                if e.get("k") in ("l", "s", "g"):
                    ss = self.stores(f).get(v, ())
                    if len(ss) == 1 and depth < 8:
                        return self.const(ss[0][0], ss[0][1], env, depth + 1)
                return None
            if op in ("cast", "un") and e.get("a"):
                eid = e["a"][0]
            elif op == "ctor" and e.get("a"):
                eid = e["a"][0]
            elif op == "call" and e.get("fn") in E.PASS and e.get("a"):
                eid = e["a"][0]
            elif op == "list" and len(e.get("a", ())) == 1:
                eid = e["a"][0]
            else:
                return None
        return None

    # ---- reading
    def trace(self, f, eid):
        """Access paths (tuples of keys) of a value in a function."""
        return {k for _, k in self._tr(f, eid, set())
                if k and not any(isinstance(x, tuple) for x in k)}

    def _tr(self, f, eid, seen):
        """{(root, keys)}: root is a parameter (function key, index) or
        None; a key is a constant or a parameter."""
        if eid is None or eid < 0:
            return set()
        key = (f.key, eid)
        m = self.memo.get(key)
        if m is not None:
            return m
        if key in seen:
            return set()
        seen.add(key)
        e = f.el.get(eid)
        if e is None:
            return set()
        return self._tr2(f, e, seen)

    def _tr2(self, f, e, seen):
        op = e["op"]
        if op == "ref":
            return self._var(f, e, seen)
        if op == "mem":
            return self._tr(f, e.get("b"), seen)
        if op == "call":
            return self._call(f, e, seen)
        if op == "sel":
            return self._all(f, e["a"][1:], seen)
        if op in ("int", "bool", "chr", "str", "this", "lambda", "dtor"):
            return set()
        if op == "sub" and len(e.get("a", ())) == 2:
            base = self._tr(f, e["a"][0], seen)
            k = self.keyof(f, e["a"][1])
            return self.ext(base, k) if k is not None else base
        return self._all(f, list(E.Engine.children(e)), seen)

    def _all(self, f, ids, seen):
        out = set()
        for i in ids:
            e = f.el.get(i)
            if e is not None and any(x in f.t(e) for x in SKIPARG):
                continue
            out |= self._tr(f, i, set(seen))
        return out

    def param(self, f, v):
        g = f
        for _ in range(8):
            for j, p in enumerate(g.params):
                if p[0] == v:
                    return (g.key, j)
            if g.kind == "lambda" and g.par and self.fx.has(g.par):
                g = self.fx.func(g.par)
            else:
                return None
        return None

    def keyof(self, f, eid):
        c = self.const(f, eid)
        if c is not None:
            return c
        n = 0
        while eid is not None and eid >= 0 and n < 20:
            n += 1
            e = f.el.get(eid)
            if e is None:
                return None
            if e["op"] == "ref":
                p = self.param(f, e.get("v"))
                if p is not None:
                    return p
                ss = self.stores(f).get(e.get("v"), ())
                if len(ss) != 1:
                    return None
                f, eid = ss[0]
            elif e["op"] in ("ctor", "cast") and e.get("a"):
                eid = e["a"][0]
            elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
                eid = e["a"][0]
            elif e["op"] == "call" and last(e.get("fn", "")) in (
                    "c_str", "data", "operator basic_string_view") and \
                    e.get("o") is not None:
                eid = e["o"]
            else:
                return None
        return None

    def _var(self, f, e, seen):
        if e.get("k") in ("f", "e"):
            return set()
        v = e.get("v")
        key = ("v", v)
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        p = self.param(f, v)
        if p is not None:
            out.add((p, ()))
        for g, i in self.stores(f).get(v, ()):
            out |= self._tr(g, i, set(seen))
        if e.get("k") == "b" and e.get("dec"):
            out |= self._var(f, {"k": "l", "v": e["dec"]}, seen)
        return out

    @staticmethod
    def ext(base, k):
        return {(r, b + (k,)) for r, b in base} or {(None, (k,))}

    def summary(self, g):
        s = self.sums.get(g.key)
        if s is not None:
            return s
        if g.key in self.busy:
            return set()
        self.busy.add(g.key)
        out = set()
        for x in g.elems():
            if x["op"] == "ret" and x.get("a"):
                out |= self._tr(g, x["a"][0], set())
        self.busy.discard(g.key)
        self.sums[g.key] = out
        return out

    def _call(self, f, e, seen):
        fn = e.get("fn", "")
        args = e.get("a", [])
        o = e.get("o")
        n = last(fn)
        if fn in E.PASS and args:
            return self._tr(f, args[0], seen)
        if o is not None and n in ACCESS and args:
            k = self.keyof(f, args[0])
            base = self._tr(f, o, seen)
            if k is not None and not (isinstance(k, str) and
                                      n == "operator/"):
                return self.ext(base, k)
            return base
        k = e.get("fk")
        g = self.fx.func(k) if k and self.fx.has(k) else None
        if g is not None and F.plain(g.q).replace(
                "(anonymous namespace)::", "") in self.stop:
            return self._all(f, [a for a in args if "basic_json" in f.t(
                f.el.get(a, {}))], seen)
        if g is not None and g.blocks:
            out = set()
            for r, ks in self.summary(g):
                ks2 = tuple(self.subst(f, g, args, x) for x in ks)
                if r is not None and r[0] == g.key:
                    if r[1] < len(args):
                        for r0, b in self._tr(f, args[r[1]], set(seen)):
                            out.add((r0, b + ks2))
                        if ks2 and not self._tr(f, args[r[1]], set(seen)):
                            out.add((None, ks2))
                else:
                    out.add((r, ks2))
            if out:
                return out
            if g.kind != "lambda" and o is not None and not args:
                return self._tr(f, o, seen)
        out = set()
        if o is not None:
            out |= self._tr(f, o, set(seen))
        return out | self._all(f, args, seen)

    def subst(self, f, g, args, k):
        if isinstance(k, tuple) and k[0] == g.key:
            if k[1] < len(args):
                c = self.keyof(f, args[k[1]])
                return c if c is not None else "*"
            return "*"
        return k

    # ---- writing
    def pairs(self, f):
        """[(function, element, key, value element)] of a function with its
        lambdas; only innermost pairs."""
        out = []
        for g in self.nest(f):
            for e in g.elems():
                if e["op"] == "list" and len(e.get("a", ())) == 2:
                    k = self.strict(g, e["a"][0])
                    if isinstance(k, str) and not self.has_pair(
                            g, e["a"][1]):
                        out.append((g, e, k, e["a"][1]))
                elif e["op"] == "ctor" and len(e.get("a", ())) == 2 and \
                        e.get("fn", "").startswith("std::pair<"):
                    k = self.strict(g, e["a"][0])
                    if isinstance(k, str):
                        out.append((g, e, k, e["a"][1]))
                elif e["op"] == "asg" or e["op"] == "call" and e.get(
                        "opk") == "=" and e.get("o") is not None:
                    l, r = (e["a"][0], e["a"][1]) if e["op"] == "asg" else (
                        e["o"], e["a"][0])
                    le = g.el.get(l, {})
                    while le.get("op") in ("cast",):
                        le = g.el.get(le["a"][0], {})
                    if le.get("op") == "call" and le.get("a") and \
                            last(le.get("fn", "")) in ("operator[]", "at"):
                        k = self.const(g, le["a"][0])
                        if isinstance(k, str):
                            out.append((g, e, k, r))
                elif e["op"] == "call" and e.get("o") is not None and \
                        len(e.get("a", ())) == 2 and last(
                            e.get("fn", "")) in (
                                "emplace", "insert_or_assign", "try_emplace"):
                    k = self.strict(g, e["a"][0])
                    if isinstance(k, str):
                        out.append((g, e, k, e["a"][1]))
        return out

    def strict(self, g, eid):
        """A string constant, through constructors with one argument."""
        n = 0
        while eid is not None and eid >= 0 and n < 10:
            n += 1
            e = g.el.get(eid)
            if e is None or e["op"] == "list":
                return None
            if e["op"] == "ctor" and e.get("li"):
                return None
            if e["op"] in ("ctor", "cast") and e.get("a"):
                eid = e["a"][0]
                continue
            return self.const(g, eid)
        return None

    def has_pair(self, g, eid, depth=0):
        e = g.el.get(eid)
        if e is None or depth > 12:
            return False
        if e["op"] == "list" and len(e.get("a", ())) == 2 and isinstance(
                self.strict(g, e["a"][0]), str):
            return True
        if e["op"] in ("list", "ctor", "cast"):
            return any(self.has_pair(g, a, depth + 1)
                       for a in e.get("a", ()))
        return False
