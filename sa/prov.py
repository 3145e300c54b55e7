"""Where a value comes from: flow-insensitive, interprocedural provenance.

The sources of an expression are access paths rooted in the parameters and the
object of a function, literals and globals. A local variable has the sources of
everything stored in it: initializers, assignments (to it or to elements and
members of it), arguments of mutating methods called on it, arguments of calls
it is passed to by reference, and the conditions that select between such
stores. Bodies of lambdas count as part of the function they stand in.
Calls of repository functions are resolved through the sources of what they
return; other calls pass on everything they are given."""
import engine as E
import facts as F

DEPTH = 8
MAXPATH = 6


def is_const_method(e):
    if e.get("cst"):
        return True
    n = e.get("fn", "").rsplit("::", 1)[-1]
    return n in ("begin", "end", "cbegin", "cend", "operator*", "operator->",
                 "get", "value", "data", "find", "at", "size", "empty",
                 "operator[]", "front", "back", "operator bool", "has_value",
                 "c_str", "str", "operator++", "operator--", "Finalize",
                 "operator==", "operator!=", "load", "lock", "count",
                 "contains")


class Prov:

    def __init__(self, fx, opaque=()):
        self.fx = fx
        self.opaque = opaque    # names of functions that are not resolved
        self.frames = {}
        self.memo = {}
        self.retmemo = {}
        self.busy = set()

    # ---- the function with its lambdas --------------------------------
    def frame(self, f):
        """Stores per variable: {var: [(func, eid)]} of a function and the
        lambdas in it."""
        k = self.outer(f).key
        fr = self.frames.get(k)
        if fr is None:
            fr = self.frames[k] = self.build(self.outer(f))
        return fr

    def outer(self, f):
        n = 0
        while f.kind == "lambda" and f.par and self.fx.has(f.par) and n < 10:
            f = self.fx.func(f.par)
            n += 1
        return f

    def nest(self, f):
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            out.append(g)
            for h in self.fx.lambdas_of(g):
                if h not in out:
                    todo.append(h)
        return out

    def root(self, f, eid, depth=0):
        """The variable (or 'this.member') a place belongs to."""
        while eid is not None and eid >= 0 and depth < 40:
            depth += 1
            e = f.el.get(eid)
            if e is None:
                return None
            op = e["op"]
            if op == "ref":
                if e.get("k") in ("f", "e"):
                    return None
                return e["v"]
            if op == "mem":
                if e.get("isf"):
                    eid = e.get("b")
                    continue
                b = f.el.get(e.get("b"), {})
                while b.get("op") == "cast":
                    b = f.el.get(b["a"][0], {})
                if b.get("op") == "this":
                    return "this." + e["m"]
                eid = e.get("b")
            elif op in ("un", "cast", "asg") and e.get("a"):
                eid = e["a"][0]
            elif op in ("idx", "sub") and e.get("a"):
                eid = e["a"][0]
            elif op == "call":
                if e.get("fn") in E.PASS and e.get("a"):
                    eid = e["a"][0]
                elif e.get("o") is not None:
                    eid = e["o"]
                elif e.get("fn", "").startswith("std::get") and e.get("a"):
                    eid = e["a"][0]
                elif e.get("fn") in ("std::back_inserter", "std::inserter"):
                    eid = e["a"][0]
                else:
                    return None
            elif op == "ctor" and len(e.get("a", ())) == 1:
                eid = e["a"][0]
            else:
                return None
        return None

    def build(self, f):
        st = {}

        def put(var, g, i, blk=None):
            if var is not None and i is not None and i >= 0:
                st.setdefault(var, []).append((g, i))

        for g in self.nest(f):
            for e in g.elems():
                op = e["op"]
                if op == "decl":
                    for d in e["d"]:
                        if d.get("i") is not None:
                            put(d["v"], g, d["i"])
                            for b in d.get("bs", ()):
                                put(b, g, d["i"])
                elif op == "asg":
                    v = self.root(g, e["a"][0])
                    put(v, g, e["a"][1])
                    self.index_of_place(g, e["a"][0], v, put)
                elif op in ("call", "ctor"):
                    self.call_stores(g, e, put)
                elif op == "lambda":
                    for c in e.get("caps", ()):
                        if c.get("v") and c.get("i") is not None:
                            ce = g.el.get(c["i"])
                            if not (ce and ce["op"] == "ref" and
                                    ce.get("v") == c["v"]):
                                put(c["v"], g, c["i"])
        # conditions that choose between the stores
        for var, l in list(st.items()):
            extra = []
            for g, i in l:
                e = g.el.get(i)
                if e is None:
                    continue
                for c in self.controls(g, e["B"]):
                    if (g, c) not in extra:
                        extra.append((g, c))
            l.extend(x for x in extra if x not in l)
        return st

    def index_of_place(self, g, eid, var, put):
        """j[key] = value also stores the key."""
        n = 0
        while eid is not None and eid >= 0 and n < 20:
            n += 1
            e = g.el.get(eid)
            if e is None:
                return
            if e["op"] == "call" and e.get("o") is not None:
                if e.get("opk") == "[]" or e.get("fn", "").endswith(
                        "operator[]"):
                    for a in e.get("a", ()):
                        put(var, g, a)
                eid = e["o"]
            elif e["op"] in ("un", "cast") and e.get("a"):
                eid = e["a"][0]
            elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
                eid = e["a"][0]
            else:
                return

    def call_stores(self, g, e, put):
        args = e.get("a", [])
        o = e.get("o")
        fn = e.get("fn", "")
        n = fn.rsplit("::", 1)[-1]
        if fn in E.PASS:
            return
        if o is not None and e["op"] == "call":
            mut = not is_const_method(e) or (e.get("opk") == "=")
            if mut:
                v = self.root(g, o)
                for a in args:
                    put(v, g, a)
                if v is not None:
                    self.index_of_place(g, o, v, put)
        pm = e.get("pm", "")
        lams = []
        for j, a in enumerate(args):
            m = pm[j] if j < len(pm) else "v"
            if e["op"] != "ctor" and (m in "rp" or
                                      self.pointer(g, a, fn)):
                ae = g.el.get(a, {})
                t = g.t(ae)
                if m == "p" and ae.get("op") == "str":
                    continue
                v = self.root(g, a)
                if v is None:
                    continue
                for k, b in enumerate(args):
                    if k != j:
                        put(v, g, b)
                if o is not None:
                    put(v, g, o)
            s = self.lam_of(g, a)
            if s is not None:
                lams.append((j, s))
        # what a lambda is called with
        for j, h in lams:
            for p in h.params:
                for k, b in enumerate(args):
                    if k != j:
                        put(p[0], g, b)
                if o is not None and fn.startswith("std::"):
                    put(p[0], g, o)
            # what std::transform and the like write through an iterator
            if fn in ("std::transform", "std::for_each", "std::copy_if"):
                for k, b in enumerate(args):
                    if k != j:
                        v = self.root(g, b)
                        be = g.el.get(b, {})
                        if be.get("op") == "call" and be.get("fn") in (
                                "std::back_inserter", "std::inserter"):
                            put(v, g, args[j])
                            for k2, b2 in enumerate(args):
                                if k2 not in (j, k):
                                    put(v, g, b2)
        if fn in ("std::copy", "std::move", "std::copy_n") and args:
            be = g.el.get(args[-1], {})
            if be.get("op") == "call":
                v = self.root(g, args[-1])
                for b in args[:-1]:
                    put(v, g, b)
        # a call of a local lambda
        h = None
        if o is not None:
            h = self.lam_of(g, o)
            if h is None and n == "operator()":
                k = e.get("fk")
                if k and self.fx.has(k) and self.fx.func(k).kind == "lambda":
                    h = self.fx.func(k)
        if h is None and e.get("fk") and self.fx.has(e["fk"]) and \
                self.fx.func(e["fk"]).kind == "lambda":
            h = self.fx.func(e["fk"])
        if h is not None:
            for p, a in zip(h.params, args):
                put(p[0], g, a)

    def pointer(self, g, eid, fn):
        """Whether an argument is a pointer through which a value can be
        changed (the address of a variable, or a pointer to non-const)."""
        n = 0
        while eid is not None and eid >= 0 and n < 10:
            n += 1
            e = g.el.get(eid)
            if e is None:
                return False
            if e["op"] == "un" and e["k"] == "&":
                return not g.t(e).startswith("const ")
            if e["op"] in ("cast", "ctor") and len(e.get("a", ())) == 1:
                eid = e["a"][0]
                continue
            if e["op"] == "ref" and not fn.startswith(("std::", "gsl::")):
                t = g.t(e).replace("gsl::not_null<", "").strip()
                return "*" in t and not t.startswith("const ") and \
                    "(" not in t
            return False
        return False

    def lam_of(self, g, eid, n=0):
        while eid is not None and eid >= 0 and n < 20:
            n += 1
            e = g.el.get(eid)
            if e is None:
                return None
            if e["op"] == "lambda":
                k = e.get("fk")
                return self.fx.func(k) if k and self.fx.has(k) else None
            if e["op"] in ("cast", "ctor") and len(e.get("a", ())) == 1:
                eid = e["a"][0]
            elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
                eid = e["a"][0]
            elif e["op"] == "ref" and e.get("k") == "l":
                d = self.decl_of(g, e["v"])
                if d is None:
                    return None
                eid = d
            else:
                return None
        return None

    @staticmethod
    def decl_of(g, v):
        for e in g.elems():
            if e["op"] == "decl":
                for d in e["d"]:
                    if d["v"] == v:
                        return d.get("i")
        return None

    # ---- control dependence -------------------------------------------
    def controls(self, g, blk, all_=False):
        """Conditions on which it depends whether the block runs, where both
        branches meet again before the function ends."""
        m = self.memo.get(("cd", g.key, all_))
        if m is None:
            m = self.memo[("cd", g.key, all_)] = control_deps(g, all_)
        return m.get(blk, ())

    # ---- sources ------------------------------------------------------
    def of(self, f, eid, depth=0, seen=None):
        """Sources of an element: set of atoms
        ('p', func key, index, path), ('this', path), ('lit', value),
        ('g', name), ('fn', name)."""
        seen = set() if seen is None else seen
        out = set()
        self._of(f, eid, (), depth, seen, out)
        return out

    def _of(self, f, eid, path, depth, seen, out):
        if eid is None or eid < 0:
            return
        key = (f.key, eid, path)
        if key in seen:
            return
        seen.add(key)
        e = f.el.get(eid)
        if e is None:
            return
        op = e["op"]
        if op in ("int", "bool", "chr", "str"):
            out.add(("lit", e.get("val")))
            return
        if op == "this":
            self.this_of(f, path, depth, seen, out)
            return
        if op == "ref":
            k = e.get("k")
            if k == "f":
                out.add(("fn", e.get("fn")))
                return
            if k == "e":
                out.add(("lit", e.get("val")))
                return
            v = e["v"]
            self.var(f, v, path, depth, seen, out, e)
            return
        if op == "mem":
            if e.get("isf"):
                self._of(f, e.get("b"), path, depth, seen, out)
                return
            p = ((e["m"],) + path)[:MAXPATH]
            self._of(f, e.get("b"), p, depth, seen, out)
            # stores to the member itself
            b = f.el.get(e.get("b"), {})
            if b.get("op") == "this":
                for g, i in self.frame(f).get("this." + e["m"], ()):
                    self._of(g, i, path, depth, seen, out)
            return
        if op == "lambda":
            k = e.get("fk")
            if k and self.fx.has(k):
                self.ret(self.fx.func(k), path, depth, seen, out)
            return
        if op == "call":
            self.call(f, e, path, depth, seen, out)
            return
        if op == "ctor":
            if e.get("cm") and e.get("a"):
                self._of(f, e["a"][0], path, depth, seen, out)
                return
            for a in e.get("a", ()):
                self._of(f, a, (), depth, seen, out)
            return
        if op == "sel":
            for j, a in enumerate(e["a"]):
                self._of(f, a, path if j else (), depth, seen, out)
            return
        if op in ("cast", "un", "asg"):
            for a in e.get("a", ()):
                self._of(f, a, path, depth, seen, out)
            return
        for c in E.Engine.children(e):
            self._of(f, c, () if op == "list" else path, depth, seen, out)

    def this_of(self, f, path, depth, seen, out):
        out.add(("this", path))

    def var(self, f, v, path, depth, seen, out, e=None):
        key = ("v", self.outer(f).key, v, path)
        if key in seen:
            return
        seen.add(key)
        out_f = self.outer(f)
        for j, p in enumerate(out_f.params):
            if p[0] == v:
                out.add(("p", out_f.key, j, path))
        fr = self.frame(f)
        got = fr.get(v, ())
        for g, i in got:
            self._of(g, i, path, depth, seen, out)
        if e is not None and e.get("k") == "b" and e.get("dec"):
            self.var(f, e["dec"], (f"#{e.get('ix')}",) + path, depth, seen,
                     out)
        if e is not None and e.get("k") in ("g", "s"):
            out.add(("g", v))
            d = self.fx.vars.get(v)
            if d:
                for x in d["e"]:
                    if x["op"] in ("str", "int", "bool", "chr"):
                        out.add(("lit", x.get("val")))

    def call(self, f, e, path, depth, seen, out):
        fn = e.get("fn", "")
        args = e.get("a", [])
        o = e.get("o")
        if fn in E.PASS and args:
            self._of(f, args[0], path, depth, seen, out)
            return
        if fn.startswith("std::get") and len(args) == 1:
            self._of(f, args[0], path, depth, seen, out)
            return
        if E.is_deref_call(e):
            self._of(f, o, path, depth, seen, out)
            return
        k = e.get("fk")
        g = self.fx.func(k) if k and self.fx.has(k) else None
        if g is None and o is not None:
            g = self.lam_of(f, o)
        if g is not None and g.blocks and depth < DEPTH and \
                F.plain(g.q) not in self.opaque:
            if g.kind == "lambda":
                self.ret(g, path, depth, seen, out)
                return
            out.add(("fn", F.plain(g.q)))
            atoms = self.returns(g, path, depth)
            for a in atoms:
                if a[0] == "p" and a[1] == g.key:
                    if a[2] < len(args):
                        self._of(f, args[a[2]], a[3], depth, seen, out)
                elif a[0] == "this":
                    if o is not None:
                        self._of(f, o, a[1], depth, seen, out)
                    else:
                        out.add(a)
                else:
                    out.add(a)
            return
        out.add(("fn", F.plain(fn)))
        if o is not None:
            self._of(f, o, path if is_const_method(e) else (), depth, seen,
                     out)
        for a in args:
            self._of(f, a, (), depth, seen, out)

    def ret(self, g, path, depth, seen, out):
        for e in g.elems():
            if e["op"] == "ret" and e.get("a"):
                own = set()
                for a in e["a"]:
                    self._of(g, a, path, depth, seen, own)
                if any(a[0] in ("p", "this") for a in own):
                    cs = self.controls(g, e["B"])
                else:
                    # a constant: chosen by the conditions that lead here
                    cs = self.controls(g, e["B"], True)
                for c in cs:
                    self._of(g, c, (), depth, seen, own)
                out |= own

    def returns(self, g, path=(), depth=0):
        key = (g.key, path)
        r = self.retmemo.get(key)
        if r is not None:
            return r
        if key in self.busy:
            return set()
        self.busy.add(key)
        out = set()
        self.ret(g, path, depth + 1, set(), out)
        # which return is taken
        self.busy.discard(key)
        if not self.busy:
            self.retmemo[key] = out
        return out


def control_deps(g, all_=False):
    """{block: [condition eids]} for branches whose arms meet again before the
    exit."""
    ids = list(g.blocks)
    exit_ = g.exit
    succ = {b: [s for s in g.blocks[b]["s"] if s in g.blocks and
                s is not None and s >= 0] for b in ids}
    # edges of exceptions (calls that may throw lead to the exit) are dropped:
    # the exit is only reached from blocks that end in a return
    for b in ids:
        if len(succ[b]) > 1 and exit_ in succ[b] and \
                g.blocks[b].get("t") is None:
            succ[b] = [s for s in succ[b] if s != exit_]
    full = set(ids)
    pd = {b: set(full) for b in ids}
    pd[exit_] = {exit_}
    changed = True
    while changed:
        changed = False
        for b in ids:
            if b == exit_:
                continue
            ss = [pd[s] for s in succ[b]]
            n = set.intersection(*ss) if ss else set()
            n = n | {b}
            if n != pd[b]:
                pd[b] = n
                changed = True
    out = {}
    for b in ids:
        t = g.blocks[b].get("t")
        if not t or t.get("c") is None or len(succ[b]) < 2:
            continue
        strict = pd[b] - {b}
        # the arms meet again in a block that does something
        meet = [x for x in strict if x != exit_ and (
            g.blocks[x]["e"])]
        if not meet and not all_:
            continue
        cs = t["c"]
        for s in succ[b]:
            for x in ids:
                if x in pd[s] and x not in strict:
                    l = out.setdefault(x, [])
                    if cs not in l:
                        l.append(cs)
    return out

