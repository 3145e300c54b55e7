"""Policies that follow what happens to the elements of containers, to locks
and to atomic variables along a path.

A container is given a tag ("cont", name); iterators, elements and sizes carry
("it", name), ("elem", name) and ("size", name). An iteration over a container
must handle each element (policies say what that is) and must not end before
the last one."""
import re

import engine as E
import facts as F
import locks as L

ATOMIC = re.compile(r"std::(__)?atomic")


class Flow(E.Policy):
    max_depth = 5
    stop = ()           # names of methods that are not entered

    def __init__(self):
        self.bad = []
        self.closures = {}      # what: keys of closures handed over

    # ---- helpers
    @staticmethod
    def num(st, k):
        v = st.env.get(k)
        return v.c if v is not None and isinstance(v.c, int) else 0

    def add(self, st, k):
        return st.set(k, E.const(min(self.num(st, k) + 1, 3)))

    @staticmethod
    def state(st, k):
        v = st.env.get(k)
        return None if v is None else v.c

    def complain(self, f, e, why):
        self.bad.append((f, e, why))

    def tag(self, eng, f, eid, st, depth=0):
        """The tag of a value or of what it was taken from."""
        while eid is not None and eid >= 0 and depth < 20:
            depth += 1
            v = eng.val(f, eid, st)
            if v.tag is not None:
                return v.tag
            e = f.el.get(eid)
            if e is None:
                return None
            if e["op"] == "call":
                if e.get("o") is not None:
                    eid = e["o"]
                elif e.get("fn") in E.PASS and e.get("a"):
                    eid = e["a"][0]
                else:
                    return None
            elif e["op"] == "mem" and e.get("b") is not None:
                eid = e["b"]
            elif e["op"] in ("cast", "un", "ctor") and e.get("a"):
                eid = e["a"][0]
            else:
                return None
        return None

    def event(self, eng, f, e, fn, n, st, depth):
        """Calls of interest to the check."""
        return None

    def flag(self, p):
        """Whether an atomic is a flag that is never reset."""
        return True

    def on_lock(self, st):
        return [st]

    def on_unlock(self, st):
        return st

    def handle(self, st, c):
        """An element of container c was handled."""
        if self.state(st, "#el:" + c) is not None:
            return st.set("#el:" + c, E.AV(E.POS, "did"))
        return st

    # ---- engine
    def inline(self, eng, f, e, g, st, depth):
        if g.kind == "lambda":
            return True
        return g.cls is not None and g.cls == self.cls and \
            g.name not in self.stop

    def elem(self, eng, f, e, st):
        if e["op"] == "dtor" and L.is_lock_type(f.t(e)):
            v = st.env.get("#lk")
            if v is not None and v.tag == ("by", e.get("v")):
                return [self.on_unlock(st.set("#lk", E.UNK))]
        if e["op"] == "decl":
            for d in e["d"]:
                if d.get("i") is not None and L.is_lock_type(
                        f.types[d["t"]]):
                    return [s for s in self.on_lock(st.set(
                        "#lk", E.AV(E.POS, None, ("by", d["v"]))))]
        return None

    def branch(self, eng, f, blk, cond, truth, st):
        e = f.el.get(cond)
        while e is not None and (e["op"] == "cast" or
                                 e["op"] == "un" and e["k"] == "!"):
            if e["op"] == "un":
                truth = not truth
            e = f.el.get(e["a"][0])
        if e is None:
            return st
        ops, k = None, None
        if e["op"] == "bin":
            ops, k = e["a"], e["k"]
        elif e["op"] == "call" and e.get("opk"):
            ops = ([e["o"]] if e.get("o") is not None else []) + e["a"]
            k = e["opk"]
        if ops is None or len(ops) != 2 or k not in ("==", "!=", "<", ">"):
            return st
        for x, y in (ops, ops[::-1]):
            v = eng.val(f, x, st)
            if not v.tag or v.tag[0] not in ("end", "size"):
                continue
            more = truth if k != "==" else not truth
            c = v.tag[1]
            w = eng.val(f, y, st)
            if v.tag[0] == "end":
                if w.tag != ("it", c):
                    return st
            else:
                z = f.el.get(y)
                while z is not None and z["op"] == "cast":
                    z = f.el.get(z["a"][0])
                if z is None or z["op"] != "ref" or \
                        st.env.get("#it:" + c) is None and \
                        not self.start(w):
                    return st
            return self.iterate(f, e, c, more, st)
        return st

    def start(self, w):
        """Whether an index may start with that value."""
        return w.s == E.ZERO

    def iterate(self, f, e, c, more, st):
        if self.state(st, "#el:" + c) == "taken":
            self.complain(f, e, f"an element of {self.what(c)} can be passed "
                          "over")
        if more:
            return st.set("#el:" + c, E.AV(E.POS, "taken")).set(
                "#it:" + c, E.AV(E.POS, "open"))
        return st.set("#el:" + c, E.UNK).set("#it:" + c,
                                             E.AV(E.POS, "done"))

    def what(self, c):
        return c

    def all_of(self, st, c):
        return self.state(st, "#it:" + c) == "done"

    def apply(self, eng, f, e, k, c, st, depth):
        """A closure applied to each element of a container."""
        g = eng.fx.func(k)
        res = []
        env = {x: v for x, v in st.env.items() if isinstance(x, str)}
        env["#el:" + c] = E.AV(E.POS, "taken")
        if g.params:
            env[g.params[0][0]] = E.AV(E.POS, None, ("elem", c))
        eng.active.append(g.key)
        outs = eng.run(g, E.State(env, st.ts), depth + 1)
        eng.active.pop()
        local = eng.locals_of(g)
        for o in outs:
            if o.how != "ret":
                continue
            s = eng.back(st, o, local, st.env.get("this"))
            s = self.iterate(f, e, c, False, s)
            res.append((E.UNK, s))
        return res

    def swap(self, eng, f, x, y, st):
        p, q = eng.path(f, x, st), eng.path(f, y, st)
        t, u = eng.val(f, x, st).tag, eng.val(f, y, st).tag
        for path, tg in ((p, u), (q, t)):
            if path is not None:
                st = st.set(path, E.AV(E.POS, None, tg) if tg else E.UNK)
        for tg in (t, u):
            if tg and tg[0] == "cont":
                st = st.set("#cl:" + tg[1], E.TRUE)
        return [(E.UNK, st)]

    def call(self, eng, f, e, st, depth):
        fn = F.plain(e.get("fn", ""))
        n = fn.rsplit("::", 1)[-1]
        r = self.event(eng, f, e, fn, n, st, depth)
        if r is not None:
            return r
        o = e.get("o")
        if o is not None and e["op"] == "call":
            t = eng.val(f, o, st).tag
            if t and t[0] == "cont":
                if n in ("begin", "cbegin"):
                    return [(E.AV(E.POS, None, ("it", t[1])), st)]
                if n in ("end", "cend"):
                    return [(E.AV(E.POS, None, ("end", t[1])), st)]
                if n in ("size",):
                    return [(E.AV(E.ZERO | E.POS, None, ("size", t[1])), st)]
                if n in ("operator[]", "at"):
                    return [(E.AV(E.TOP, None, ("elem", t[1])), st)]
                if n in ("front", "back", "top"):
                    if self.state(st, "#el:" + t[1]) is None:
                        st = st.set("#el:" + t[1], E.AV(E.POS, "taken"))
                    return [(E.AV(E.TOP, None, ("elem", t[1])), st)]
                if n in ("pop_back", "pop_front", "pop"):
                    if self.state(st, "#el:" + t[1]) != "did":
                        self.complain(f, e, f"an element of "
                                      f"{self.what(t[1])} can be dropped")
                    return [(E.UNK, st.set("#el:" + t[1], E.UNK))]
                if n == "empty" and self.state(
                        st, "#dropped:" + t[1]) is None:
                    k = "#it:" + t[1]
                    return [(E.TRUE, st.set(k, E.AV(E.POS, "done"))),
                            (E.FALSE, st.set(k, E.AV(E.POS, "open")))]
                if n in ("operator->", "operator*", "get"):
                    return [(E.AV(E.POS, None, t), st)]
                if n == "swap" and e.get("a"):
                    return self.swap(eng, f, o, e["a"][0], st)
            elif n == "swap" and e.get("a"):
                u = eng.val(f, e["a"][0], st).tag
                if u and u[0] == "cont":
                    return self.swap(eng, f, o, e["a"][0], st)
            if t and t[0] == "it":
                if n in ("operator*", "operator->"):
                    return [(E.AV(E.TOP, None, ("elem", t[1])), st)]
                if n.startswith("operator++"):
                    return [(E.AV(E.POS, None, t), st)]
        if fn in ("std::begin", "std::end", "std::cbegin", "std::cend") and \
                e.get("a"):
            t = self.tag(eng, f, e["a"][0], st)
            if t and t[0] == "cont":
                return [(E.AV(E.POS, None, ("end" if fn.endswith("end")
                                            else "it", t[1])), st)]
        if fn == "std::exchange" and len(e.get("a", ())) == 2:
            t = eng.val(f, e["a"][0], st).tag
            p = eng.path(f, e["a"][0], st)
            if t and t[0] == "cont" and p is not None:
                return [(E.AV(E.POS, None, t), st.set(p, E.UNK).set(
                    "#cl:" + t[1], E.TRUE))]
        if fn == "std::swap" and len(e.get("a", ())) == 2:
            ts = [eng.val(f, a, st).tag for a in e["a"]]
            if any(t and t[0] == "cont" for t in ts):
                return self.swap(eng, f, e["a"][0], e["a"][1], st)
        if fn in ("std::for_each", "std::transform") and len(
                e.get("a", ())) >= 3:
            t = eng.val(f, e["a"][0], st).tag
            u = eng.val(f, e["a"][1], st).tag
            k = eng.val(f, e["a"][-1], st).tag
            if t and u and t[0] == "it" and u[0] == "end" and k and \
                    k[0] == "lam" and eng.fx.has(k[1]):
                return self.apply(eng, f, e, k[1], t[1], st, depth)
        if n in ("__for_each_fn::operator()",) or fn.startswith(
                "std::ranges::for_each"):
            pass
        if L.is_lock_type(f.t(f.el.get(o, {}))) if o is not None else False:
            if n == "unlock":
                return [(E.UNK, self.on_unlock(st.set("#lk", E.UNK)))]
            if n == "lock":
                return [(E.UNK, s) for s in self.on_lock(st.set(
                    "#lk", E.AV(E.POS, None, ("by", eng.path(f, o, st)))))]
        return self.atomics(eng, f, e, fn, n, st)

    def atomics(self, eng, f, e, fn, n, st):
        o = e.get("o")
        a = list(e.get("a", ()))
        if fn.startswith("std::atomic_") and a:
            o, a = a[0], a[1:]
            n = n[len("atomic_"):]
            if n.endswith("_explicit"):
                n = n[:-9]
        elif o is None or e["op"] != "call" or not ATOMIC.match(
                e.get("fn", "")):
            return None
        p = eng.path(f, o, st) or "?"
        c = st.env.get("#c:" + p)
        if c is not None and isinstance(c.c, int):
            return self.concrete(eng, f, n, a, "#c:" + p, c.c, st)
        k = "#a:" + p
        old = st.env.get(k)
        if n == "load" or n.startswith("operator ") and n != "operator=" \
                or n.startswith("operator bool") or n.startswith(
                    "operator int"):
            if old is not None and old.s == E.POS:
                return [(E.TRUE, st)]
            if old is not None and old.s == E.ZERO and \
                    st.env.get("#lk") is not None:
                return [(E.FALSE, st)]
            r = [(E.TRUE, st.set(k, E.AV(E.POS)))]
            zero = st.set("#u:" + p, E.AV(E.POS))
            if st.env.get("#lk") is not None:
                zero = zero.set(k, E.AV(E.ZERO))
            r.append((E.FALSE, zero))
            return r
        if n in ("store", "operator=") and a:
            v = eng.val(f, a[0], st)
            return [(v, self.stored(f, e, p, v, st.set(k, E.AV(v.s))))]
        if n == "exchange" and a:
            v = eng.val(f, a[0], st)
            s = self.stored(f, e, p, v, st.set(k, E.AV(v.s)))
            return [(E.TRUE, self.exchanged(f, e, p, v, True, s)),
                    (E.FALSE, self.exchanged(f, e, p, v, False, s))]
        if n in ("fetch_sub", "fetch_add", "operator--", "operator++"):
            d = eng.val(f, a[0], st).c if a else 1
            return [(E.AV(E.TOP, None, ("rmw", n, d, p)), st)]
        return None

    @staticmethod
    def concrete(eng, f, n, a, k, old, st):
        """Operations on an atomic with a known value."""
        d = eng.val(f, a[0], st).c if a else 1
        if d is None:
            return [(E.UNK, st.set(k, E.UNK))]
        if n in ("store", "operator="):
            return [(E.const(d), st.set(k, E.const(d)))]
        if n in ("exchange", "test_and_set"):
            return [(E.const(old), st.set(k, E.const(d)))]
        if n == "fetch_sub":
            return [(E.const(old), st.set(k, E.const(old - d)))]
        if n == "fetch_add":
            return [(E.const(old), st.set(k, E.const(old + d)))]
        if n in ("operator--", "operator++", "operator-=", "operator+="):
            new = old + (d if n in ("operator+=", "operator++") else -d)
            # operators before and after differ in the number of arguments
            post = n in ("operator--", "operator++") and bool(a)
            if post:
                new = old + (1 if n == "operator++" else -1)
            return [(E.const(old if post else new), st.set(k, E.const(new)))]
        if n == "load" or n.startswith("operator"):
            return [(E.const(old), st)]
        return None

    def stored(self, f, e, p, v, st):
        return st

    def exchanged(self, f, e, p, v, was, st):
        return st

    def finish(self, f, outs, conts=()):
        """Iterations that were left early."""
        for o in outs:
            for k, v in o.st.env.items():
                if isinstance(k, str) and k.startswith("#it:") and \
                        v.c == "open" and o.how == "ret":
                    self.complain(f, None, "the iteration over "
                                  f"{self.what(k[4:])} can end before its "
                                  "last element")
