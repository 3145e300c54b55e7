"""Lock states along every path: which locks are held at every access to a
field, acquisition, wait, notification and call. Functions are started without
locks; helpers (private methods, closures, functions with internal linkage)
that are called from elsewhere are followed in the lock state of their
callers, closures given to library algorithms in that of the call, and
closures that are stored or queued without locks."""
import re

import engine as E
import facts as F

RAII = ("std::unique_lock", "std::lock_guard", "std::shared_lock",
        "std::scoped_lock")
SYNC = re.compile(r"^(mutable |const |volatile )*("
                  r"std::(shared_|recursive_|timed_)*mutex\b|"
                  r"std::condition_variable|std::atomic|atomic<|"
                  r"std::once_flag|std::thread\b)")
MUTEX = re.compile(r"\bstd::(recursive_|timed_|shared_)*mutex\b")
# observers of containers that have overloads for objects that are not const
OBSERVERS = {"find", "begin", "end", "at", "front", "back", "size", "empty",
             "contains", "count", "cbegin", "cend", "lower_bound", "get",
             "operator*", "operator->", "value", "has_value", "operator bool",
             "load", "rbegin", "rend", "data", "c_str", "operator[]"}


def strip(t):
    return t.replace("const ", "").strip()


def is_lock_type(t):
    return strip(t).startswith(RAII)


def is_mutex_type(t):
    return bool(MUTEX.search(t)) and not is_lock_type(t)


def mode_of(t):
    return "S" if strip(t).startswith("std::shared_lock") else "X"


# calls whose result refers into the container they are called on
REFERRING = {"find", "begin", "end", "at", "front", "back", "operator[]",
             "lower_bound", "upper_bound", "rbegin", "try_emplace", "emplace",
             "insert", "data", "value", "get", "operator*"}


class Access:
    """kind: 'R', 'W'; idx: canonical index of a partition, or None"""
    __slots__ = ("f", "e", "cls", "field", "base", "idx", "kind", "ts",
                 "root", "how")

    def __init__(self, f, e, cls, field, base, idx, kind, ts, root, how):
        self.f, self.e, self.cls, self.field = f, e, cls, field
        self.base, self.idx, self.kind, self.ts = base, idx, kind, ts
        self.root, self.how = root, how


class LockPolicy(E.Policy):
    max_depth = 5

    def __init__(self, an):
        self.a = an
        self.root = None

    # -- names of objects
    def canon(self, eng, f, eid, st, depth=0):
        if eid is None or depth > 12:
            return "?"
        e = f.el.get(eid)
        if e is None:
            return "?"
        if e["op"] == "ref":
            v = st.env.get(e.get("v"))
            if v is not None and v.tag and v.tag[0] == "ref":
                return v.tag[1]
        p = eng.path(f, eid, st)
        if p is not None and "." in p and not p.startswith("this"):
            q = p.split(".", 1)
            v = st.env.get(q[0])
            if v is not None and v.tag and v.tag[0] == "ref":
                return v.tag[1] + "." + q[1]
        if p is not None:
            return p
        if e["op"] == "cast" or (e["op"] == "un" and e["k"] in "*&"):
            return self.canon(eng, f, e["a"][0], st, depth + 1)
        if e["op"] == "mem":
            if e.get("isf"):
                return "?"
            return self.canon(eng, f, e["b"], st, depth + 1) + "." + e["m"]
        if e["op"] == "ref":
            return e.get("v", "?")
        if e["op"] == "call":
            n = e.get("fn", "").rsplit("::", 1)[-1]
            if n in ("operator[]", "at") and e.get("o") is not None:
                return self.canon(eng, f, e["o"], st, depth + 1) + "[" + \
                    self.canon(eng, f, e["a"][0], st, depth + 1) + "]"
            if e.get("o") is not None and E.is_deref_call(e):
                return self.canon(eng, f, e["o"], st, depth + 1)
            ops = [self.canon(eng, f, a, st, depth + 1)
                   for a in e.get("a", ())]
            o = "" if e.get("o") is None else self.canon(
                eng, f, e["o"], st, depth + 1) + "."
            return o + F.plain(e.get("fn", "?")) + "(" + ",".join(ops) + ")"
        if e["op"] == "ctor" and len(e.get("a", ())) == 1:
            return self.canon(eng, f, e["a"][0], st, depth + 1)
        if "val" in e:
            return str(e["val"])
        if e["op"] == "idx":
            return "[".join(self.canon(eng, f, a, st, depth + 1)
                            for a in e["a"]) + "]"
        return "?"

    def lock_class(self, f, eid, st, eng):
        """Name of the mutex, the same for all objects of a class."""
        e = f.el.get(eid)
        while e is not None:
            if e["op"] == "mem" and not e.get("isf"):
                return F.plain(e.get("v") or e["m"])
            if e["op"] == "ref":
                t = f.t(e)
                v = e.get("v", "?").split("@")[0]
                if e.get("k") in ("s", "g"):
                    return f.file.rsplit("/", 1)[-1] + ":" + v
                return v
            if e["op"] == "call":
                n = e.get("fn", "").rsplit("::", 1)[-1]
                if n in ("operator[]", "at", "operator*", "operator->",
                         "get") and e.get("o") is not None and \
                        e["fn"].startswith(("std::", "gsl::")):
                    e = f.el.get(e["o"])
                    continue
                return F.plain(e.get("fn", "?")) + "()"
            if e["op"] in ("cast", "un") and e.get("a"):
                e = f.el.get(e["a"][0])
                continue
            return "?"
        return "?"

    def index(self, eng, f, e, st):
        n = e.get("fn", "").rsplit("::", 1)[-1]
        if n in ("operator[]", "at") and e.get("a"):
            t = strip(f.t(f.el.get(e["o"], {})))
            if t.startswith("std::vector"):
                return self.canon(eng, f, e["a"][0], st)
        return None

    # -- events
    def visit(self, eng, f, e, st):
        self.a.visit(self, eng, f, e, st)

    def held(self, st):
        return st.ts

    def acquire(self, eng, f, e, var, meid, mode, st):
        c = self.canon(eng, f, meid, st)
        k = self.lock_class(f, meid, st, eng)
        self.a.acquired(self, f, e, k, c, mode, st)
        return st.with_ts(frozenset(x for x in st.ts if x[0] != var) |
                          {(var, c, mode, k)})

    def bind(self, eng, f, d, st):
        """A reference to (a part of) a field or to the result of a call."""
        v = st.get(d["v"])
        if v.tag and v.tag[0] == "it":
            return st
        m = self.a.guarded_operand(f, d["i"])
        if m is not None:
            idx = None
            e = f.el.get(d["i"])
            while e is not None and idx is None:
                if e["op"] == "call" and e.get("o") is not None:
                    idx = self.index(eng, f, e, st)
                    e = f.el.get(e["o"])
                elif e["op"] in ("cast", "un") and e.get("a"):
                    e = f.el.get(e["a"][0])
                else:
                    break
            return st.set(d["v"], v.but(tag=("it",) + m[:2] + (
                self.canon(eng, f, m[2]["b"], st), idx), al=None))
        e = eng.src(f, d["i"])
        if v.al is None and e is not None and e["op"] == "call" and \
                not v.tag:
            return st.set(d["v"], v.but(tag=("ref", self.canon(
                eng, f, e["i"], st))))
        return st

    def elem(self, eng, f, e, st):
        if e["op"] == "decl":
            outs = [st]
            for d in e["d"]:
                t = f.types[d["t"]] if d.get("t", -1) >= 0 else ""
                if d.get("rf") and d.get("i") is not None:
                    outs = [self.bind(eng, f, d, s) for s in outs]
                    continue
                if not is_lock_type(t) or d.get("i") is None:
                    continue
                c = eng.src(f, d["i"])
                if c is None or c["op"] != "ctor":
                    continue
                args = c.get("a", [])
                if not args:
                    continue
                kinds = " ".join(f.t(f.el.get(a, {})) for a in args)
                nxt = []
                for s in outs:
                    v = d["v"]
                    if "defer_lock_t" in kinds:
                        c0 = self.canon(eng, f, args[0], s)
                        k0 = self.lock_class(f, args[0], s, eng)
                        nxt.append(s.set(v, E.AV(E.ZERO, None,
                                                 ("mx", c0, k0))))
                        continue
                    h = s
                    for a in args:
                        if is_mutex_type(f.t(f.el.get(a, {}))):
                            h = self.acquire(
                                eng, f, e, v if a == args[0] else v +
                                "#" + str(a), a, mode_of(t), h)
                    tag = None
                    for x in h.ts:
                        if x[0] == v:
                            tag = ("mx", x[1], x[3])
                    nxt.append(h.set(v, E.AV(E.POS, None, tag)))
                    if "try_to_lock_t" in kinds:
                        nxt.append(s.set(v, E.AV(E.ZERO, None, tag)))
                outs = nxt
            return outs
        if e["op"] == "dtor":
            v = e.get("v")
            ts = frozenset(x for x in st.ts if x[0] != v and
                           not x[0].startswith(str(v) + "#"))
            return [st.with_ts(ts)]
        return None

    def call(self, eng, f, e, st, depth):
        fn = e.get("fn", "")
        n = fn.rsplit("::", 1)[-1]
        o = e.get("o")
        if o is not None and n in REFERRING and e["op"] == "call":
            m = self.a.guarded_operand(f, o)
            if m is not None:
                tag = ("it",) + m[:2] + (self.canon(eng, f, m[2]["b"], st),
                                         self.index(eng, f, e, st))
                s2 = eng.havoc(f, e, st)
                return [(E.AV(E.TOP, None, tag), s2)]
            v = eng.val(f, o, st)
            if v.tag and v.tag[0] == "it" and n in ("operator[]", "at",
                                                    "find", "begin", "end"):
                return [(E.AV(E.TOP, None, v.tag), eng.havoc(f, e, st))]
        if o is not None and fn.startswith("std::"):
            ot = f.t(f.el.get(o, {}))
            if is_lock_type(ot):
                p = eng.path(f, o, st)
                v = st.get(p) if p else E.UNK
                if n in ("unlock", "release"):
                    ts = frozenset(x for x in st.ts if x[0] != p)
                    if p:
                        st = st.set(p, v.but(s=E.ZERO))
                    return [(E.UNK, st.with_ts(ts))]
                if n in ("lock", "try_lock"):
                    tag = v.tag or ("mx", "?", "?")
                    self.a.acquired(self, f, e, tag[2], tag[1], mode_of(ot),
                                    st)
                    h = st.with_ts(st.ts | {(p, tag[1], mode_of(ot),
                                             tag[2])})
                    h = h.set(p, v.but(s=E.POS))
                    if n == "lock":
                        return [(E.UNK, h)]
                    return [(E.TRUE, h), (E.FALSE, st)]
                if n == "owns_lock":
                    return [(eng.truth(v), st)]
            if is_mutex_type(ot) and n in ("lock", "unlock", "lock_shared",
                                           "unlock_shared", "try_lock"):
                c = self.canon(eng, f, o, st)
                var = "mutex " + c
                if n.startswith("unlock"):
                    return [(E.UNK, st.with_ts(frozenset(
                        x for x in st.ts if x[0] != var)))]
                h = self.acquire(eng, f, e, var, o,
                                 "S" if "shared" in n else "X", st)
                if n == "try_lock":
                    return [(E.TRUE, h), (E.FALSE, st)]
                return [(E.UNK, h)]
        # closures given to library functions run before these return
        if fn.startswith(("std::", "gsl::")) and not fn.startswith(
                ("std::function<", "std::thread", "std::make_shared",
                 "std::shared_ptr", "std::optional", "std::make_unique",
                 "std::move", "std::forward", "std::vector", "std::deque",
                 "std::unordered_map", "std::pair", "std::make_pair",
                 "std::invoke", "std::make_optional", "std::async")):
            for a in e.get("a", ()):
                v = eng.val(f, a, st)
                if v.tag and v.tag[0] == "lam" and eng.fx.has(v.tag[1]) and \
                        v.tag[1] not in eng.active and depth < self.max_depth:
                    g = eng.fx.func(v.tag[1])
                    if g.blocks and self.a.relevant(g.key):
                        self.a.sync.add(g.key)
                        eng.enter(f, {"i": e["i"], "pm": ""}, g, [], None,
                                  st, depth)
        return None

    def inline(self, eng, f, e, g, st, depth):
        return self.a.helper(g) and self.a.relevant(g.key)


class Analysis:

    def __init__(self, fx):
        self.fx = fx
        self.accesses = []
        self.acquisitions = {}      # key -> set of lock classes (own)
        self.pairs = {}             # (held class, acquired class) -> text
        self.calls_held = {}        # (func key, fk) -> set(held classes)
        self.again = {}             # same lock acquired again
        self.sync = set()
        self.events = []            # other observations
        self.watch = []             # predicates (f, e) -> label
        self._rel = {}
        self._helpers = None
        self.acc = {}               # method key -> access
        self.callers = {}
        self.guarded_cls = set()
        self._refs, self._users = {}, {}
        self.classes()

    def classes(self):
        self.mclass = {}
        for k, r in self.fx.records.items():
            for m in r["ms"]:
                if m.get("u"):
                    self.acc[m["u"]] = m.get("acc")
            ms = [x["n"] for x in r["fields"] if is_mutex_type(x["ty"])]
            if ms:
                self.mclass[F.plain(k)] = (r, ms)

    def find_relevant(self):
        """Functions in which locks or guarded fields occur."""
        pats = ["std::unique_lock", "std::lock_guard", "std::shared_lock",
                "std::scoped_lock", "std::mutex", "shared_mutex",
                "condition_variable"]
        rel = set()
        fields = {c + "::" for c in self.mclass}
        self.last = {c.rsplit("::", 1)[-1] for c in self.mclass}
        for f in self.fx.funcs():
            hit = False
            for e in f.elems():
                t = f.t(e)
                if e["op"] == "decl":
                    for d in e["d"]:
                        if d.get("t", -1) >= 0 and (
                                is_lock_type(f.types[d["t"]]) or
                                is_mutex_type(f.types[d["t"]])):
                            hit = True
                elif e["op"] == "mem" and not e.get("isf"):
                    v = F.plain(e.get("v") or "")
                    if v.rpartition("::")[0] in self.mclass:
                        hit = True
                elif e["op"] == "call" and "condition_variable" in e.get(
                        "fn", ""):
                    hit = True
                elif e["op"] == "call" and e.get("o") is not None and \
                        is_mutex_type(f.t(f.el.get(e["o"], {}))):
                    hit = True
                elif any(w(f, e) for w in self.watch):
                    hit = True
                if hit:
                    break
            if hit:
                rel.add(f.key)
        self.rel = rel
        # closures make their enclosing function relevant
        todo = list(rel)
        while todo:
            k = todo.pop()
            f = self.fx.func(k)
            if f.kind == "lambda" and f.par and f.par not in rel and \
                    self.fx.has(f.par):
                rel.add(f.par)
                todo.append(f.par)
        # callers of relevant helpers
        changed = True
        calls = {}
        for f in self.fx.funcs():
            for e in f.elems():
                if e["op"] in ("call", "ctor") and e.get("fk"):
                    calls.setdefault(e["fk"], set()).add(f.key)
        self.callers = calls
        while changed:
            changed = False
            for k in list(rel):
                g = self.fx.func(k)
                if self.is_helper_shape(g):
                    for c in calls.get(k, ()):
                        if c not in rel:
                            rel.add(c)
                            changed = True

    def relevant(self, k):
        return k in self.rel

    def is_helper_shape(self, g):
        if g.kind == "lambda":
            return True
        if self.acc.get(g.key) in ("priv", "prot"):
            return True
        if g.cls is None and ("(anonymous namespace)" in g.q or
                              g.d.get("st")):
            return True
        return False

    def helper(self, g):
        return self.is_helper_shape(g)

    # -- events from the policy
    def visit(self, pol, eng, f, e, st):
        op = e["op"]
        if op == "mem" and not e.get("isf"):
            v = F.plain(e.get("v") or "")
            cls, _, fld = v.rpartition("::")
            if cls in self.mclass:
                kind, idx, how = self.usage(f, e)
                if how == "bound":
                    return
                if idx is not None:
                    idx = pol.canon(eng, f, idx, st)
                self.mem.append(Access(f, e, cls, fld, pol.canon(
                    eng, f, e["b"], st), idx, kind, st.ts, pol.root, how))
        elif op == "ref" and e.get("k") not in ("f", "e"):
            v = st.env.get(e["v"])
            if v is not None and v.tag and v.tag[0] == "it" and \
                    e["v"] in self.refvars(f):
                kind, _, how = self.usage(f, e)
                self.derived(f, e, v.tag, kind, st, pol, how)
        elif op in ("call", "ctor"):
            if op == "call" and e.get("o") is not None and e["fn"].rsplit(
                    "::", 1)[-1] in ("operator->", "operator*") and \
                    "terator" in f.t(f.el.get(e["o"], {})):
                t = self.root_tag(eng, f, e["o"], st)
                if t is not None:
                    kind, _, how = self.usage(f, e)
                    self.derived(f, e, t, kind, st, pol,
                                 "iterator" if kind == "R" else how)
            fk = e.get("fk")
            if fk and st.ts and self.fx.has(fk):
                self.calls_held.setdefault((f.key, fk), set()).update(
                    x[3] for x in st.ts)
            if op == "call" and st.ts and fk is None and not e.get(
                    "fn", "").startswith("std::"):
                self.unknown.append((f, e, st.ts))
            if op == "call" and "std::function" in e.get("fn", "") and \
                    e["fn"].endswith("operator()") and st.ts:
                self.unknown.append((f, e, st.ts))
        for i, w in enumerate(self.watch):
            if w(f, e):
                self.events.append((i, f, e, st, pol.root, pol.canon(
                    eng, f, e["o"], st) if e.get("o") is not None else None))

    @staticmethod
    def root_tag(eng, f, eid, st):
        v = eng.val(f, eid, st)
        if v.tag and v.tag[0] == "it":
            return v.tag
        e = f.el.get(eid)
        while e is not None:
            if e["op"] == "ref":
                v = st.env.get(e.get("v"))
                return v.tag if v is not None and v.tag and \
                    v.tag[0] == "it" else None
            if e["op"] == "mem" and not e.get("isf"):
                e = f.el.get(e["b"])
            elif e["op"] in ("cast", "un") and e.get("a"):
                e = f.el.get(e["a"][0])
            else:
                return None
        return None

    def derived(self, f, e, tag, kind, st, pol, how):
        _, cls, fld, base, idx = tag
        self.mem.append(Access(f, e, cls, fld, base, idx, kind, st.ts,
                               pol.root, how))

    def refvars(self, f):
        r = self._refs.get(f.key)
        if r is None:
            r = set()
            for e in f.elems():
                for d in e.get("d", ()):
                    if d.get("rf"):
                        r.add(d["v"])
                    for b in d.get("bs", ()):
                        r.add(b)
            self._refs[f.key] = r
        return r

    def users(self, f):
        u = self._users.get(f.key)
        if u is None:
            u = {}
            for e in f.elems():
                for c in E.Engine.children(e):
                    u.setdefault(c, []).append(e)
            self._users[f.key] = u
        return u

    def guarded_operand(self, f, eid):
        """(class, field, element) of the field an operand refers to."""
        e = f.el.get(eid)
        n = 0
        while e is not None and n < 8:
            n += 1
            if e["op"] == "mem" and not e.get("isf"):
                cls, _, fld = F.plain(e.get("v") or "").rpartition("::")
                return (cls, fld, e) if cls in self.mclass else None
            if e["op"] in ("cast", "un") and e.get("a"):
                e = f.el.get(e["a"][0])
            elif e["op"] == "call" and e.get("o") is not None and e[
                    "fn"].rsplit("::", 1)[-1] in ("operator[]", "at",
                                                  "operator*", "operator->"):
                e = f.el.get(e["o"])
            else:
                return None
        return None

    def usage(self, f, e):
        """How an lvalue is used: ('R' | 'W' | 'A' for atomic operations,
        element of the index or None, text)"""
        idx = None
        cur, n = e, 0
        kind, how = "R", "read"
        todo = [e]
        seen = set()
        us = self.users(f)
        while todo and n < 40:
            cur = todo.pop()
            n += 1
            for u in us.get(cur["i"], ()):
                if u["i"] in seen:
                    continue
                seen.add(u["i"])
                op = u["op"]
                if how == "bound" and op not in ("cast", "un"):
                    how = "read"
                if op == "asg" and u["a"][0] == cur["i"]:
                    kind, how = "W", "assigned"
                elif op == "un" and u["k"].startswith(("++", "--")):
                    kind, how = "W", u["k"]
                elif op == "un" and u["k"] in "*&":
                    todo.append(u)
                elif op == "cast":
                    todo.append(u)
                elif op == "mem" and not u.get("isf") and u.get(
                        "b") == cur["i"]:
                    todo.append(u)
                elif op == "mem" and u.get("isf"):
                    pass
                elif op == "decl" and any(
                        d.get("rf") and d.get("i") == cur["i"]
                        for d in u["d"]):
                    if how == "read":
                        how = "bound"
                elif op in ("call", "ctor"):
                    nm = u.get("fn", "").rsplit("::", 1)[-1]
                    if u.get("o") == cur["i"]:
                        t = strip(f.t(cur))
                        if nm in ("operator[]", "at"):
                            if t.startswith("std::vector") and idx is None:
                                idx = u["a"][0]
                            if nm == "operator[]" and "map<" in t[:24]:
                                kind, how = "W", "operator[]"
                            todo.append(u)
                        elif u.get("opk") == "=" or nm == "operator=":
                            kind, how = "W", "assigned"
                        elif nm in ("operator++", "operator--"):
                            kind, how = "W", nm
                        elif nm in ("operator*", "operator->", "value"):
                            todo.append(u)
                        elif not u.get("cst") and nm not in OBSERVERS:
                            kind, how = "W", nm
                    elif cur["i"] in u.get("a", ()):
                        j = u["a"].index(cur["i"])
                        pm = u.get("pm", "")
                        m = pm[j] if j < len(pm) else "v"
                        if u.get("fn", "").startswith("std::atomic_"):
                            kind, how = "A", u["fn"]
                        elif m in "rp" and op == "call":
                            if u.get("fn") == "gsl::at":
                                todo.append(u)
                            elif u.get("fn") in E.PASS:
                                todo.append(u)
                                if u["fn"] == "std::move":
                                    kind, how = "W", "moved"
                            else:
                                kind, how = "W", "given to " + u.get(
                                    "fn", "?")
                        elif u.get("fn") in E.PASS:
                            todo.append(u)
                            if u["fn"] == "std::move":
                                kind, how = "W", "moved"
        return kind, idx, how

    def acquired(self, pol, f, e, k, c, mode, st):
        if k != "?" and ":" not in k and c.split("@")[0] == k:
            self.plainlocks.setdefault((f.key, c), f.loc(e))
        self.acquisitions.setdefault(f.key, set()).add(k)
        self.locked.add((k, c))
        for x in st.ts:
            if x[1] == c and c != "?":
                self.again.setdefault((f.file, k), f"{f.loc(e)}: {k} is "
                                      f"acquired while it is held")
            elif x[3] == k and k != "?":
                self.again.setdefault((f.file, k), f"{f.loc(e)}: {k} of one "
                                      "object is acquired while that of "
                                      "another is held")
            else:
                self.pairs.setdefault((x[3], k), f.loc(e))

    def run(self):
        self.mem, self.unknown, self.locked = [], [], set()
        self.find_relevant()
        self.outcomes = {}
        self.plainlocks = {}
        pol = LockPolicy(self)
        done = set()
        rest = []
        for k in sorted(self.rel):
            g = self.fx.func(k)
            called = any(c in self.rel for c in self.callers.get(k, ()))
            if self.is_helper_shape(g) and (called or g.kind == "lambda"):
                rest.append(g)
                continue
            self.start(pol, g)
            done.add(k)
        for g in rest:
            # closures that no analysed call runs: stored or queued
            if g.kind == "lambda" and g.key not in self.entered:
                self.start(pol, g)
        return self

    entered = set()

    def start(self, pol, g):
        pol.root = g
        eng = VisitEngine(self.fx, pol)
        eng.LIMIT = 60
        self.outcomes[g.key] = eng.run(g, E.State({}, frozenset()))
        self.entered |= eng.seen
        self.widened = getattr(self, "widened", set()) | eng.widened


class VisitEngine(E.Engine):
    """Engine that shows every element to the policy before its effect."""

    def __init__(self, fx, p):
        super().__init__(fx, p)
        self.seen = set()

    def step(self, f, e, st, depth):
        self.seen.add(f.key)
        self.p.visit(self, f, e, st)
        return super().step(f, e, st, depth)
