"""A disjunctive dataflow engine over the extracted control-flow graphs.

Abstract values are sets of signs (negative, zero, positive) with an optional
constant; optionals, pointers and expected<> are zero when disengaged and
positive when engaged, booleans are zero or positive. States are kept apart
per path condition on those values (up to a limit per block, after which they
are joined), together with a typestate that the policy of a check maintains.
Repository functions are entered at calls when the policy asks for it."""
import os
import sys

sys.setrecursionlimit(20000)

NEG, ZERO, POS, TOP = 1, 2, 4, 7


class AV:
    __slots__ = ("s", "c", "tag", "al", "_h")

    def __init__(self, s=TOP, c=None, tag=None, al=None):
        self.s, self.c, self.tag, self.al = s, c, tag, al
        self._h = hash((s, c if not isinstance(c, list) else None, tag, al))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.s == o.s and self.c == o.c and type(self.c) is type(
            o.c) and self.tag == o.tag and self.al == o.al

    def __repr__(self):
        s = "".join(x for b, x in ((1, "-"), (2, "0"), (4, "+")) if self.s & b)
        return f"<{s}{'' if self.c is None else '=' + repr(self.c)}" + \
            f"{'' if self.tag is None else ' ' + str(self.tag)}" + \
            f"{'' if self.al is None else ' &' + self.al}>"

    def known(self):
        return self.s != TOP or self.c is not None or self.tag is not None \
            or self.al is not None

    def but(self, **k):
        return AV(k.get("s", self.s), k.get("c", self.c),
                  k.get("tag", self.tag), k.get("al", self.al))


UNK = AV()
V0 = AV(ZERO)
VP = AV(POS)
TRUE = AV(POS, 1)
FALSE = AV(ZERO, 0)


def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return AV(NEG if v < 0 else ZERO if v == 0 else POS, v)
    return AV(POS, v)


def join_av(a, b):
    if a == b:
        return a
    return AV(a.s | b.s, a.c if a.c == b.c else None,
              a.tag if a.tag == b.tag else None,
              a.al if a.al == b.al else None)


class State:
    __slots__ = ("env", "ts", "_k")

    def __init__(self, env, ts):
        self.env, self.ts, self._k = env, ts, None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), self.ts)
        return self._k

    def set(self, k, v):
        env = dict(self.env)
        if v.known():
            env[k] = v
        else:
            env.pop(k, None)
        return State(env, self.ts)

    def with_ts(self, ts):
        return State(self.env, ts)

    def get(self, k):
        return self.env.get(k, UNK)

    def kill(self, path):
        """Forgets everything at and below an access path."""
        pre = path + "."
        ks = [k for k in self.env
              if isinstance(k, str) and (k == path or k.startswith(pre))]
        if not ks:
            return self
        env = dict(self.env)
        for k in ks:
            del env[k]
        return State(env, self.ts)


class Out:
    """Outcome of running a function: how = 'ret' | 'throw'."""
    __slots__ = ("how", "val", "st", "e")

    def __init__(self, how, val, st, e=None):
        self.how, self.val, self.st, self.e = how, val, st, e


PASS = {"std::move", "std::forward", "std::as_const", "std::addressof",
        "gsl::not_null", "std::ref", "std::cref", "__builtin_expect"}


def is_deref_call(e):
    fn = e.get("fn", "")
    n = fn.rsplit("::", 1)[-1]
    if e.get("o") is None:
        return False
    if n in ("operator*", "operator->", "value", "get") and (
            fn.startswith("std::") or fn.startswith("gsl::")
            or fn.startswith("expected<") or fn.startswith("expected::")):
        return True
    return False


def is_engaged_type(t):
    t = t.replace("const ", "")
    return t.startswith(("std::optional<", "expected<", "std::shared_ptr<",
                         "std::unique_ptr<", "std::function<"))


class Policy:
    follow_eh = False
    max_depth = 6
    drop_dead = False   # forget locals that are not referred to any more

    def call(self, eng, f, e, st, depth):
        """None: not treated; else list of (AV, State)."""
        return None

    def may_throw(self, eng, f, e):
        return True

    def eh(self, eng, f, e, st):
        """State(s) in which an exception leaves a call."""
        return [st]

    def inline(self, eng, f, e, g, st, depth):
        return False

    def elem(self, eng, f, e, st):
        """Other elements of interest (dtor, asg, ...): new state or None."""
        return None

    def branch(self, eng, f, blk, cond, truth, st):
        return st

    def keep(self, k, v):
        return True


class Engine:
    LIMIT = 640 if os.environ.get("VERIF_TIER") == "thorough" else 160
    counting = False    # follow counters exactly (loops are unrolled)

    def __init__(self, facts, policy):
        self.fx, self.p = facts, policy
        self.uses = {}
        self.widened = set()
        self.steps = 0
        self.max_steps = 5 * self.LIMIT * 500
        self.active = []
        self.memo = {}

    # ---- access paths -------------------------------------------------
    def path(self, f, eid, st, depth=0):
        """Access path denoted by an element, or None."""
        if eid is None or eid < 0 or depth > 30:
            return None
        e = f.el.get(eid)
        if e is None:
            return None
        op = e["op"]
        if op == "ref":
            if e.get("k") in ("f", "e"):
                return None
            v = e["v"]
            a = st.env.get(v)
            if a is not None and a.al is not None:
                return a.al
            if e.get("k") == "b" and e.get("dec"):
                return v
            return v
        if op == "this":
            a = st.env.get("this")
            if a is not None and a.al is not None:
                return a.al
            return "this"
        if op == "mem":
            if e.get("isf"):
                return None
            b = self.path(f, e["b"], st, depth + 1)
            if b is None:
                return None
            p = b + "." + e["m"]
            a = st.env.get(p)
            if a is not None and a.al is not None:
                return a.al
            return p
        if op == "un" and e["k"] in ("*", "&"):
            return self.path(f, e["a"][0], st, depth + 1)
        if op == "cast":
            return self.path(f, e["a"][0], st, depth + 1)
        if op == "asg":
            return self.path(f, e["a"][0], st, depth + 1)
        if op == "call":
            fn = e.get("fn", "")
            if fn in PASS and e.get("a"):
                return self.path(f, e["a"][0], st, depth + 1)
            if is_deref_call(e):
                b = self.path(f, e["o"], st, depth + 1)
                if b is not None:
                    t = f.t(f.el.get(e["o"], {}))
                    if "optional" in t or "expected" in t:
                        return b + ".*"
                    return b
            if e["i"] in st.env and st.env[e["i"]].al is not None:
                return st.env[e["i"]].al
            return None
        if op == "ctor" and e.get("cm"):
            return None
        a = st.env.get(eid)
        if a is not None and a.al is not None:
            return a.al
        return None

    def src(self, f, eid, depth=0):
        """The element a value comes from, seen through moves and copies."""
        while eid is not None and eid >= 0 and depth < 30:
            e = f.el.get(eid)
            if e is None:
                return None
            depth += 1
            if e["op"] == "call" and e.get("fn") in PASS and e.get("a"):
                eid = e["a"][0]
            elif e["op"] == "ctor" and len(e.get("a", [])) == 1 and (
                    e.get("cm") or is_engaged_type(f.t(e))):
                eid = e["a"][0]
            elif e["op"] == "cast":
                eid = e["a"][0]
            else:
                return e
        return f.el.get(eid)

    # ---- values -------------------------------------------------------
    def val(self, f, eid, st):
        if eid is None or eid < 0:
            return UNK
        a = st.env.get(eid)
        if a is not None:
            return a
        e = f.el.get(eid)
        if e is None:
            return UNK
        return self.peek(f, e, st)

    def peek(self, f, e, st):
        """Value of a pure element, without an entry in the state."""
        op = e["op"]
        if op in ("int", "bool", "chr"):
            return const(e["val"])
        if op == "str":
            return AV(POS, e.get("val", ""))
        if op == "null":
            return V0
        if op == "this":
            p = self.path(f, e["i"], st)
            return AV(POS, None, None, p)
        if op == "ref":
            if e.get("k") == "f":
                return AV(POS, None, ("fn", e.get("fk")))
            if e.get("k") == "e":
                return const(e["val"])
            if e["v"].endswith("nullopt"):
                return V0
            p = self.path(f, e["i"], st)
            a = st.env.get(p)
            if a is not None and (a.s != TOP or a.c is not None or a.tag):
                return a
            if "val" in e:
                return const(e["val"])
            if a is None and p is not None and p.endswith(".*"):
                b = st.env.get(e["v"])
                if b is not None and b.tag:
                    return b.but(al=None)
            return a or UNK
        if op == "mem":
            p = self.path(f, e["i"], st)
            if p is not None and p in st.env:
                return st.env[p]
            if e["m"] == "first" and e.get("b") is not None:
                v = self.val(f, e["b"], st)
                if v.tag and v.tag[0] == "pair":
                    return AV(v.tag[1])
            if "val" in e:
                return const(e["val"])
            return UNK
        if op == "bin" and e["k"] in ("&&", "||"):
            # operands that were not evaluated are unknown here
            a = self.val(f, e["a"][0], st)
            if e["k"] == "&&" and a.s == ZERO:
                return FALSE
            if e["k"] == "||" and not a.s & ZERO:
                return TRUE
            return UNK
        if "val" in e and op != "x":
            return const(e["val"])
        return UNK

    def compare(self, k, a, b):
        """Truth of a comparison: TRUE/FALSE/UNK."""
        if a.c is not None and b.c is not None and type(a.c) is type(b.c):
            if k in ("==", "!="):
                return const((a.c == b.c) == (k == "=="))
            if isinstance(a.c, int):
                return const({"<": a.c < b.c, ">": a.c > b.c,
                              "<=": a.c <= b.c, ">=": a.c >= b.c}[k])
        if k in ("==", "!="):
            if a.s == ZERO and b.s == ZERO:
                return const(k == "==")
            if not a.s & b.s:
                return const(k == "!=")
            return UNK
        if a.s == TOP or b.s == TOP:
            pass
        rank = {NEG: -1, ZERO: 0, POS: 1}
        rs = set()
        for x in (NEG, ZERO, POS):
            for y in (NEG, ZERO, POS):
                if a.s & x and b.s & y:
                    if x == y and x != ZERO:
                        rs |= {True, False}
                    else:
                        d = rank[x] - rank[y]
                        rs.add({"<": d < 0, ">": d > 0, "<=": d <= 0,
                                ">=": d >= 0}[k])
        # constants refine: x < 1 etc. are left undecided
        if len(rs) == 1:
            return const(rs.pop())
        return UNK

    # ---- refinement ---------------------------------------------------
    def assume(self, f, eid, truth, st, depth=0):
        """Restricts the state to the element's truth value; None if that
        is impossible."""
        if eid is None or eid < 0 or depth > 30:
            return st
        e = f.el.get(eid)
        if e is None:
            return st
        want = (NEG | POS) if truth else ZERO
        v = self.val(f, eid, st)
        if not v.s & want:
            return None
        op = e["op"]
        if op == "un" and e["k"] == "!":
            r = self.assume(f, e["a"][0], not truth, st, depth + 1)
            return None if r is None else r.set(eid, const(truth))
        if op == "bin" and e["k"] in ("&&", "||"):
            if (e["k"] == "&&") == truth:
                for c in e["a"]:
                    st = self.assume(f, c, truth, st, depth + 1)
                    if st is None:
                        return None
            else:
                # the operand that decides, if the other one cannot
                left = [c for c in e["a"] if self.val(f, c, st).s & want]
                if len(left) == 1:
                    st = self.assume(f, left[0], truth, st, depth + 1)
                    if st is None:
                        return None
            return st.set(eid, const(truth))
        if op == "sel":
            return st.set(eid, const(truth))
        cmp = None
        if op == "bin" and e["k"] in ("==", "!=", "<", ">", "<=", ">="):
            cmp = (e["k"], e["a"][0], e["a"][1])
        elif op == "call" and e.get("opk") in ("==", "!=", "<", ">", "<=",
                                               ">="):
            ops = ([e["o"]] if e.get("o") is not None else []) + e["a"]
            if len(ops) == 2:
                cmp = (e["opk"], ops[0], ops[1])
        if cmp:
            k, l, r = cmp
            if not truth:
                k = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=",
                     "<=": ">"}[k]
            st = self.restrict(f, l, k, self.val(f, r, st), st, depth)
            if st is None:
                return None
            fl = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(k, k)
            st = self.restrict(f, r, fl, self.val(f, l, st), st, depth)
            if st is None:
                return None
            return st.set(eid, const(truth))
        if op == "cast":
            return self.assume(f, e["a"][0], truth, st, depth + 1)
        if op == "call":
            n = e.get("fn", "").rsplit("::", 1)[-1]
            if n in ("has_value", "operator bool") and e.get("o") is not None:
                st = self.narrow(f, e["o"], want, st)
                return None if st is None else st.set(eid, const(truth))
            if n == "operator!" and e.get("o") is not None:
                st = self.narrow(f, e["o"], (NEG | POS) if not truth else
                                 ZERO, st)
                return None if st is None else st.set(eid, const(truth))
            if e.get("fn") in PASS and e.get("a"):
                return self.assume(f, e["a"][0], truth, st, depth + 1)
        return self.narrow(f, eid, want, st)

    def restrict(self, f, eid, k, bound, st, depth):
        """value(eid) k bound"""
        if bound.s == TOP and bound.c is None:
            return st
        if k == "==":
            s = bound.s
            st2 = self.narrow(f, eid, s, st)
            if st2 is not None and isinstance(bound.c, int):
                st2 = self.fix_const(f, eid, bound, st2)
            return st2
        if k == "!=":
            if bound.s == ZERO:
                return self.narrow(f, eid, NEG | POS, st)
            v = self.val(f, eid, st)
            if v.c is not None and v.c == bound.c and type(v.c) is type(
                    bound.c):
                return None
            # of a boolean or of an optional
            if bound.s == POS and bound.c == 1 and \
                    f.t(f.el.get(eid, {})).replace("const ", "") == "bool":
                return self.narrow(f, eid, ZERO, st)
            return st
        if bound.s == ZERO:
            s = {"<": NEG, "<=": NEG | ZERO, ">": POS, ">=": ZERO | POS}[k]
            return self.narrow(f, eid, s, st)
        if bound.c == -1 and k in (">",):
            return self.narrow(f, eid, ZERO | POS, st)
        if bound.c == -1 and k in ("<=", "<"):
            return self.narrow(f, eid, NEG, st)
        if bound.s == NEG and k in ("<", "<="):
            return self.narrow(f, eid, NEG, st)
        if bound.s == POS and k in (">", ">="):
            return self.narrow(f, eid, POS, st)
        if bound.c == 1 and k == "<":
            return self.narrow(f, eid, NEG | ZERO, st)
        return st

    def fix_const(self, f, eid, bound, st):
        v = self.val(f, eid, st)
        if isinstance(v.c, int):
            return st if v.c == bound.c else None
        nv = v.but(s=bound.s, c=bound.c)
        p = self.path(f, eid, st)
        if p is not None:
            st = st.set(p, nv)
        return st.set(eid, nv)

    def narrow(self, f, eid, signs, st):
        v = self.val(f, eid, st)
        s = v.s & signs
        if not s:
            return None
        if s != v.s:
            nv = v.but(s=s)
            p = self.path(f, eid, st)
            st = st.set(eid, nv)
            if p is not None and not (nv.al == p):
                st = st.set(p, nv)
            e = f.el.get(eid)
            # value seen through an assignment or a copy
            if e is not None:
                if e["op"] == "asg" and e["k"] == "=":
                    st = st.set(e["a"][1], nv)
                elif e["op"] == "call" and e.get("fn") in PASS and e.get("a"):
                    return self.narrow(f, e["a"][0], signs, st)
        return st

    # ---- transfer -----------------------------------------------------
    def used_elsewhere(self, f):
        u = self.uses.get(f.key)
        if u is None:
            u = set()
            for b in f.blocks.values():
                for e in b["e"]:
                    for c in self.children(e):
                        ce = f.el.get(c)
                        if ce is not None and ce["B"] != b["id"]:
                            u.add(c)
                t = b.get("t")
                if t and t.get("c") is not None:
                    c = t["c"]
                    stack = [c]
                    while stack:
                        x = stack.pop()
                        xe = f.el.get(x)
                        if xe is None:
                            continue
                        if xe["B"] != b["id"]:
                            u.add(x)
                        if xe["op"] in ("bin", "un", "sel"):
                            stack.extend(self.children(xe))
            self.uses[f.key] = u
        return u

    @staticmethod
    def children(e):
        for c in e.get("a", ()):
            yield c
        for k in ("o", "b", "cal"):
            if e.get(k) is not None:
                yield e[k]
        for d in e.get("d", ()):
            if d.get("i") is not None:
                yield d["i"]
        for c in e.get("caps", ()):
            if c.get("i") is not None:
                yield c["i"]

    def assign(self, f, path, v, st, src=None):
        st = st.kill(path)
        if v.al == path:
            v = v.but(al=None)
        return st.set(path, v)

    def step(self, f, e, st, depth):
        """-> list of states after one element."""
        self.steps += 1
        op = e["op"]
        i = e["i"]
        if op in ("int", "bool", "chr", "str", "null", "this"):
            return [st]
        if op in ("ref", "mem"):
            if i in st.env:
                # what was found out about it in an earlier iteration
                env = dict(st.env)
                del env[i]
                st = State(env, st.ts)
            return [st]
        if op == "call":
            return self.do_call(f, e, st, depth)
        if op == "ctor":
            return self.do_ctor(f, e, st, depth)
        if op == "un":
            k = e["k"]
            if k == "!":
                v = self.val(f, e["a"][0], st)
                r = UNK
                if v.s == ZERO:
                    r = TRUE
                elif not v.s & ZERO:
                    r = FALSE
                return [st.set(i, r)]
            if k == "&":
                p = self.path(f, e["a"][0], st)
                return [st.set(i, AV(POS, None, None, p))]
            if k == "*":
                v = self.val(f, e["a"][0], st)
                return [st.set(i, AV(TOP, None, v.tag, v.al))
                        if v.tag or v.al else st]
            if k == "-":
                v = self.val(f, e["a"][0], st)
                s = (v.s & ZERO) | (POS if v.s & NEG else 0) | \
                    (NEG if v.s & POS else 0)
                c = -v.c if isinstance(v.c, int) else None
                return [st.set(i, AV(s, c))]
            if k.startswith(("++", "--")):
                p = self.path(f, e["a"][0], st)
                if p is not None:
                    v = st.get(p)
                    if self.counting and isinstance(v.c, int):
                        w = const(v.c + (1 if k[0] == "+" else -1))
                        st = self.assign(f, p, w, st).set(
                            i, v if k[-1] == "p" else w)
                    elif k.startswith("++") and v.s and not v.s & NEG:
                        st = self.assign(f, p, AV(POS), st)
                    else:
                        st = st.kill(p)
                r = self.p.elem(self, f, e, st)
                return [st] if r is None else r
            return [st]
        if op == "bin":
            k = e["k"]
            l, r = e["a"]
            if k in ("&&", "||"):
                if "val" in e:
                    return [st.set(i, const(e["val"]))]
                a = self.val(f, l, st)
                short = ZERO if k == "&&" else None
                if k == "&&":
                    if a.s == ZERO:
                        return [st.set(i, FALSE)]
                    b = self.val(f, r, st)
                    if not a.s & ZERO:
                        return [st.set(i, self.truth(b))]
                    return [st.set(i, FALSE if b.s == ZERO and r in st.env
                                   else UNK)]
                if not a.s & ZERO:
                    return [st.set(i, TRUE)]
                b = self.val(f, r, st)
                if a.s == ZERO:
                    return [st.set(i, self.truth(b))]
                return [st]
            if k in ("==", "!=", "<", ">", "<=", ">="):
                return [st.set(i, self.compare(k, self.val(f, l, st),
                                               self.val(f, r, st)))]
            if k == ",":
                return [st.set(i, self.val(f, r, st))]
            a, b = self.val(f, l, st), self.val(f, r, st)
            if isinstance(a.c, int) and isinstance(b.c, int):
                try:
                    c = {"+": lambda: a.c + b.c, "-": lambda: a.c - b.c,
                         "*": lambda: a.c * b.c, "|": lambda: a.c | b.c,
                         "&": lambda: a.c & b.c, "<<": lambda: a.c << b.c,
                         ">>": lambda: a.c >> b.c,
                         "^": lambda: a.c ^ b.c}[k]()
                    if "val" in e:
                        c = e["val"]
                    return [st.set(i, const(c))]
                except (KeyError, ValueError):
                    pass
            if "val" in e:
                return [st.set(i, const(e["val"]))]
            return [st]
        if op == "sel":
            c = self.val(f, e["a"][0], st)
            k = f.el.get(e["a"][0], {}).get("val")
            if k is not None:
                c = const(k)
            if not c.s & ZERO:
                v = self.val(f, e["a"][1], st)
            elif c.s == ZERO:
                v = self.val(f, e["a"][2], st)
            else:
                v = join_av(self.val(f, e["a"][1], st),
                            self.val(f, e["a"][2], st))
            return [st.set(i, v)]
        if op == "cast":
            v = self.val(f, e["a"][0], st)
            if type(v.c) is int and not -129 < v.c < 128 and \
                    f.t(e).replace("const ", "") == "signed char":
                v = const((v.c + 128) % 256 - 128)
            return [st.set(i, v)]
        if op == "list" and len(e.get("a", ())) == 1 and \
                f.t(e).replace("const ", "") == \
                f.t(f.el.get(e["a"][0], {})).replace("const ", ""):
            v = self.val(f, e["a"][0], st)
            if v.tag or v.c is not None:
                st = st.set(i, v.but(al=None))
        if op == "asg":
            p = self.path(f, e["a"][0], st)
            v = self.val(f, e["a"][1], st) if e["k"] == "=" else UNK
            if p is not None:
                if e["k"] == "|=" or e["k"] == "&=":
                    a, b = st.get(p), self.val(f, e["a"][1], st)
                    if e["k"] == "&=" and (a.s == ZERO or b.s == ZERO):
                        v = FALSE
                    elif e["k"] == "|=" and (not a.s & ZERO or
                                             not b.s & ZERO):
                        v = AV(NEG | POS if a.s & NEG or b.s & NEG else POS)
                st0 = st
                st = self.assign(f, p, v, st)
            st = st.set(i, v)
            r = self.p.elem(self, f, e, st)
            return [st] if r is None else r
        if op == "decl":
            for d in e["d"]:
                if d.get("st"):
                    continue
                if d.get("i") is not None:
                    v = self.val(f, d["i"], st)
                    st = st.kill(d["v"])
                    if d.get("rf"):
                        p = self.path(f, d["i"], st)
                        if p is not None and p != d["v"]:
                            st = st.set(d["v"], v.but(al=p))
                            continue
                    st = st.set(d["v"], v)
                else:
                    st = st.kill(d["v"])
            r = self.p.elem(self, f, e, st)
            return [st] if r is None else r
        if op == "lambda":
            for c in e.get("caps", ()):
                if c.get("v") and c.get("i") is not None:
                    ce = f.el.get(c["i"])
                    p = self.path(f, c["i"], st)
                    if p != c["v"] and not (ce and ce["op"] == "ref" and
                                            ce.get("v") == c["v"]):
                        v = self.val(f, c["i"], st)
                        if c.get("ref") and p is not None:
                            v = v.but(al=p)
                        if p is not None and v.al is None and not (
                                ce and ce["op"] == "ctor"):
                            pass
                        st = st.set(c["v"], v)
            st = st.set(i, AV(POS, None, ("lam", e.get("fk"))))
            r = self.p.elem(self, f, e, st)
            return [st] if r is None else r
        r = self.p.elem(self, f, e, st)
        return [st] if r is None else r

    @staticmethod
    def truth(v):
        if v.s == ZERO:
            return FALSE
        if not v.s & ZERO:
            return TRUE
        return UNK

    def do_ctor(self, f, e, st, depth):
        r = self.p.call(self, f, e, st, depth)
        if r is not None:
            return [s.set(e["i"], v) for v, s in r]
        a = e.get("a", [])
        t = f.t(e).replace("const ", "")
        i = e["i"]
        if e.get("cm"):
            v = self.val(f, a[0], st) if a else UNK
            p = self.path(f, a[0], st) if a else None
            st2 = st.set(i, v.but(al=None) if v.al == p else v)
            return [st2]
        if is_engaged_type(t) or t.startswith(("gsl::not_null<",
                                               "unexpected<")):
            if t.startswith("unexpected<"):
                return [st.set(i, V0)]
            if not a:
                return [st.set(i, V0)]
            ae = self.src(f, a[0])
            v = self.val(f, a[0], st)
            at = f.t(ae).replace("const ", "") if ae else ""
            a0t = f.t(f.el.get(a[0], {})).replace("const ", "")
            if a0t.startswith("std::optional<") and \
                    t == "std::optional<" + a0t + ">":
                return [st.set(i, VP)]      # an optional in an optional
            if ae is not None and (at.startswith("std::nullopt_t") or
                                   at.startswith("unexpected<")):
                return [st.set(i, V0)]
            if at == "std::nullptr_t":
                return [st.set(i, V0)]
            if t.startswith("std::optional<" + at) and at.startswith(
                    "std::optional<") and t != at:
                return [st.set(i, VP)]      # an optional in an optional
            if is_engaged_type(at) and at.split("<")[0] == t.split("<")[0]:
                return [st.set(i, v)]
            if t.startswith(("std::optional<", "expected<")):
                if at.startswith(t.split("<")[0] + "<"):
                    return [st.set(i, v)]
                return [st.set(i, AV(POS, None if v.c is None
                                     else ("opt", v.c), v.tag))]
            if t.startswith("std::function<"):
                return [st.set(i, AV(POS, None, v.tag, v.al))]
            return [st.set(i, v)]
        if t.startswith(("std::basic_string", "std::filesystem::path")) and \
                len(a) >= 1:
            v = self.val(f, a[0], st)
            if isinstance(v.c, str):
                return [st.set(i, v)]
        if len(a) == 1:
            # conversions that wrap a value keep its identity
            v = self.val(f, a[0], st)
            if v.tag is not None:
                return [st.set(i, v)]
        return self.generic_call(f, e, st, depth)

    def do_call(self, f, e, st, depth):
        i = e["i"]
        fn = e.get("fn", "")
        r = self.p.call(self, f, e, st, depth)
        if e.get("fk") and self.fx.noreturn(e["fk"]):
            return []
        if r is not None:
            return [s.set(i, v) for v, s in r]
        if fn in PASS and e.get("a"):
            return [st.set(i, self.val(f, e["a"][0], st))]
        n = fn.rsplit("::", 1)[-1]
        o = e.get("o")
        if fn.startswith(("std::", "gsl::", "expected")) and o is not None:
            if n in ("has_value", "operator bool"):
                v = self.val(f, o, st)
                return [st.set(i, self.truth(v))]
            if n in ("operator->", "get", "operator*", "value"):
                v = self.val(f, o, st)
                t = f.t(f.el.get(o, {}))
                p = self.path(f, i, st)
                if "optional" in t or "expected" in t:
                    pv = st.env.get(p) if p else None
                    if pv is not None:
                        return [st.set(i, pv)]
                    if isinstance(v.c, tuple):
                        return [st.set(i, const(v.c[1]))]
                    return [st.set(i, AV(TOP, None, v.tag, None))
                            if v.tag else st]
                return [st.set(i, v)]
            if n in ("operator==", "operator!=") and e.get("a"):
                return [st.set(i, self.compare(
                    e["opk"], self.val(f, o, st),
                    self.val(f, e["a"][0], st)))]
            if n == "operator=" and e.get("a"):
                p = self.path(f, o, st)
                v = self.val(f, e["a"][0], st)
                t = f.t(f.el.get(o, {})).replace("const ", "")
                ae = self.src(f, e["a"][0])
                at = f.t(ae).replace("const ", "") if ae else ""
                if t.startswith("std::optional<") and not at.startswith(
                        ("std::optional<", "std::nullopt_t")) and not (
                            ae and ae["op"] == "list" and not ae["a"]):
                    c = v.c if isinstance(v.c, tuple) else ("opt", v.c)
                    v = AV(POS, c if self.counting and v.c is not None
                           else None, v.tag)
                elif at.startswith("std::nullopt_t") or (
                        ae and ae["op"] == "list" and not ae["a"] and
                        is_engaged_type(t)):
                    v = V0
                if not is_engaged_type(t) and not v.known():
                    v = UNK
                if p is not None:
                    st = self.assign(f, p, v, st)
                rr = self.p.elem(self, f, e, st)
                return [st] if rr is None else rr
            if n in ("reset",) and is_engaged_type(
                    f.t(f.el.get(o, {})).replace("const ", "")):
                p = self.path(f, o, st)
                if p is not None:
                    st = self.assign(f, p, self.val(f, e["a"][0], st)
                                     if e.get("a") else V0, st)
                return [st]
            if n == "emplace" and is_engaged_type(
                    f.t(f.el.get(o, {})).replace("const ", "")):
                p = self.path(f, o, st)
                if p is not None:
                    st = self.assign(f, p, VP, st)
                return [st]
        if fn.startswith("std::") and e.get("opk") in ("==", "!=") and \
                o is None and len(e.get("a", [])) == 2:
            return [st.set(i, self.compare(
                e["opk"], self.val(f, e["a"][0], st),
                self.val(f, e["a"][1], st)))]
        if fn == "std::exchange" and len(e.get("a", [])) == 2:
            p = self.path(f, e["a"][0], st)
            if p is not None:
                v, new = st.get(p), self.val(f, e["a"][1], st)
                return [self.assign(f, p, new, st).set(i, v.but(al=None))]
        if n == "swap" and fn.startswith("std::"):
            x = e["a"][0] if o is None else o
            p = self.path(f, x, st)
            q = self.path(f, e["a"][-1], st)
            if p is not None and q is not None and p != q:
                return [self.swapped(st, p, q)]
        if fn in ("std::make_optional", "std::make_shared",
                  "std::make_unique"):
            v = self.val(f, e["a"][0], st) if len(
                e.get("a", [])) == 1 and fn == "std::make_optional" else UNK
            return [st.set(i, AV(POS, ("opt", v.c) if self.counting and
                                 type(v.c) is int else None, v.tag))]
        return self.generic_call(f, e, st, depth)

    @staticmethod
    def swapped(st, p, q):
        env = {}
        for k, v in st.env.items():
            if isinstance(k, str):
                for a, b in ((p, q), (q, p)):
                    if k == a or k.startswith(a + "."):
                        k = b + k[len(a):]
                        break
            env[k] = v
        return State(env, st.ts)

    def callee(self, f, e, st):
        """The repository function a call enters, if it can be told."""
        fk = e.get("fk")
        fn = e.get("fn", "")
        args = e.get("a", [])
        obj = e.get("o")
        if fn == "std::invoke" and args:
            v = self.val(f, args[0], st)
            if v.tag and v.tag[0] in ("lam", "fn") and self.fx.has(v.tag[1]):
                return self.fx.func(v.tag[1]), args[1:], None
            return None, args[1:], None
        if fn.startswith("std::function<") and fn.endswith("operator()") \
                and obj is not None:
            v = self.val(f, obj, st)
            if v.tag and v.tag[0] in ("lam", "fn") and self.fx.has(v.tag[1]):
                return self.fx.func(v.tag[1]), args, None
            return None, args, None
        if fk is None and e.get("cal") is not None:
            v = self.val(f, e["cal"], st)
            if v.tag and v.tag[0] in ("lam", "fn") and self.fx.has(v.tag[1]):
                return self.fx.func(v.tag[1]), args, None
            return None, args, None
        if fk and self.fx.has(fk):
            return self.fx.func(fk), args, obj
        return None, args, obj

    def generic_call(self, f, e, st, depth):
        g, args, obj = self.callee(f, e, st)
        if g is not None and depth < self.p.max_depth and \
                g.key not in self.active and g.blocks and \
                self.p.inline(self, f, e, g, st, depth):
            return self.enter(f, e, g, args, obj, st, depth)
        return [self.havoc(f, e, st)]

    def havoc(self, f, e, st):
        """Default effect of a call that is not entered."""
        pm = e.get("pm", "")
        for j, a in enumerate(e.get("a", [])):
            m = pm[j] if j < len(pm) else "v"
            if m in "rp" or (m == "m"):
                p = self.path(f, a, st)
                ae = f.el.get(a)
                if m == "p" and ae is not None:
                    v = self.val(f, a, st)
                    p = v.al
                if p is not None:
                    # a value handed over by pointer or reference
                    st = st.kill(p)
        o = e.get("o")
        if o is not None and not e.get("cst") and e["op"] == "call":
            p = self.path(f, o, st)
            if p is not None and p != "this":
                t = f.t(f.el.get(o, {}))
                n = e.get("fn", "").rsplit("::", 1)[-1]
                if n in ("operator()", "begin", "end", "operator[]", "find",
                         "at", "error", "lock", "unlock", "get", "data"):
                    pass
                elif not is_engaged_type(t.replace("const ", "")):
                    st = st.kill(p)
        if e["op"] == "call" and e.get("opk") == "=" and o is not None:
            pass
        if "val" in e:
            st = st.set(e["i"], const(e["val"]))
        return st

    def enter(self, f, e, g, args, obj, st, depth):
        env = {k: v for k, v in st.env.items() if isinstance(k, str)}
        pm = e.get("pm", "")
        if e.get("fn") == "std::invoke":
            pm = ""
        gp = g.d["ps"]
        for j, p in enumerate(gp):
            if j >= len(args):
                break
            v = self.val(f, args[j], st)
            pt = g.types[p[2]] if p[2] >= 0 else ""
            ap = self.path(f, args[j], st)
            if pt.endswith("&") and ap is not None:
                if ap.endswith(".*") and v.tag and ap not in env:
                    env[ap] = v.but(al=None)
                v = v.but(al=ap)
            elif pt.endswith("&&") and ap is not None:
                v = v.but(al=ap)
            elif v.al is not None and not pt.endswith(("*", "&")) and \
                    "not_null" not in pt and v.al == ap:
                v = v.but(al=None)
            if v.known():
                env[p[0]] = v
            else:
                env.pop(p[0], None)
        saved_this = st.env.get("this")
        if g.kind == "lambda":
            pass
        elif obj is not None:
            op = self.path(f, obj, st)
            oe = f.el.get(obj)
            if op is not None:
                if op != "this":
                    env["this"] = AV(POS, None, None, op)
            else:
                env["this"] = AV(POS, None, None, f"obj#{f.line}:{obj}")
        st2 = State(env, st.ts)
        key = (g.key, st2.key(), tuple(self.active)
               if self.p.max_depth < 0 else None)
        outs = self.memo.get(key)
        if outs is None:
            self.active.append(g.key)
            outs = self.run(g, st2, depth + 1)
            self.active.pop()
            self.memo[key] = outs
        res = []
        seen = set()
        local = self.locals_of(g)
        for o in outs:
            if o.how != "ret":
                if self.p.follow_eh:
                    self.pending_eh.append((f, e, self.back(st, o, local,
                                                            saved_this)))
                continue
            s = self.back(st, o, local, saved_this)
            v = o.val
            if v.al is not None and v.al in local:
                v = v.but(al=None)
            s = s.set(e["i"], v)
            if s.key() not in seen:
                seen.add(s.key())
                res.append(s)
        return res

    def back(self, st, o, local, saved_this):
        env = {k: v for k, v in o.st.env.items()
               if isinstance(k, str) and k.split(".", 1)[0] not in local
               and k != "this"}
        if saved_this is not None:
            env["this"] = saved_this
        for k, v in st.env.items():
            if not isinstance(k, str):
                env[k] = v
        return State(env, o.st.ts)

    def locals_of(self, g):
        k = ("loc", g.key)
        r = self.uses.get(k)
        if r is None:
            r = {p[0] for p in g.d["ps"]}
            for e in g.elems():
                for d in e.get("d", ()):
                    r.add(d["v"])
                    for b in d.get("bs", ()):
                        r.add(b)
            self.uses[k] = r
        return r

    def live_after(self, g):
        """Block -> names that are referred to in it or later."""
        k = ("live", g.key)
        r = self.uses.get(k)
        if r is not None:
            return r
        pinned = set()
        use = {}
        for bid, b in g.blocks.items():
            u = set()
            for e in b["e"]:
                if e["op"] == "ref" and "v" in e:
                    u.add(e["v"])
                for c in e.get("caps", ()):
                    if c.get("v"):
                        u.add(c["v"])
                        pinned.add(c["v"])
                for d in e.get("d", ()):
                    if d.get("rf") or d.get("bs"):
                        # a name for something else
                        i = d.get("i")
                        while i is not None and i in g.el:
                            x = g.el[i]
                            if x["op"] == "ref" and "v" in x:
                                pinned.add(x["v"])
                            i = x.get("b", x.get("o")) if x["op"] in (
                                "mem", "call") else (
                                    x.get("a") or [None])[0]
                for c in self.children(e):
                    ce = g.el.get(c)
                    if ce is not None and ce["B"] != bid:
                        u.add(c)
                if e["op"] == "un" and e["k"] == "&":
                    x = g.el.get(e["a"][0], {})
                    if "v" in x:
                        pinned.add(x["v"])
            t = b.get("t")
            stack = [t["c"]] if t and t.get("c") is not None else []
            while stack:
                x = stack.pop()
                xe = g.el.get(x)
                if xe is None:
                    continue
                if xe["B"] != bid:
                    u.add(x)
                if xe["op"] in ("bin", "un", "sel"):
                    stack.extend(self.children(xe))
            use[bid] = u
        # what a used element is made of
        for u in use.values():
            stack = [x for x in u if isinstance(x, int)]
            while stack:
                x = g.el[stack.pop()]
                if x["op"] == "ref" and "v" in x:
                    u.add(x["v"])
                for c in self.children(x):
                    if c in g.el and c not in u:
                        u.add(c)
                        stack.append(c)
        live = {bid: set(u) for bid, u in use.items()}
        change = True
        while change:
            change = False
            for bid, b in g.blocks.items():
                n = len(live[bid])
                for t in b["s"]:
                    if t in live:
                        live[bid] |= live[t]
                change |= len(live[bid]) != n
        r = (self.locals_of(g) - pinned, live)
        self.uses[k] = r
        return r

    def live_only(self, g, bid, env):
        mine, live = self.live_after(g)
        lv = live.get(bid, ())
        return {k: v for k, v in env.items() if (
            k in lv if not isinstance(k, str) else
            k.split(".", 1)[0] not in mine or k.split(".", 1)[0] in lv)}

    # ---- functions ----------------------------------------------------
    pending_eh = []

    def run(self, g, st, depth=0):
        """-> list of outcomes of g from the state."""
        outs, oseen = [], set()
        if not g.blocks:
            return [Out("ret", UNK, st)]
        if depth == 0:
            self.active = [g.key]
            self.steps = 0
        work = [(g.entry, st)]
        visited = {}
        keep = self.used_elsewhere(g)
        retv = ("ret", g.key)
        while work:
            bid, s = work.pop()
            b = g.blocks.get(bid)
            if b is None:
                continue
            if bid == g.exit:
                v = s.env.get("$ret", UNK)
                how = "throw" if s.env.get("$throw") else "ret"
                env = {k: x for k, x in s.env.items()
                       if k not in ("$ret", "$throw")}
                s = State(env, s.ts)
                k = (how, v, s.key())
                if k not in oseen:
                    oseen.add(k)
                    outs.append(Out(how, v, s))
                continue
            # drop temporaries of other blocks
            env = {k: v for k, v in s.env.items()
                   if isinstance(k, str) or k in keep}
            if self.p.drop_dead:
                env = self.live_only(g, bid, env)
            if len(env) != len(s.env):
                s = State(env, s.ts)
            vis = visited.setdefault(bid, {})
            if s.key() in vis:
                continue
            if len(vis) >= self.LIMIT or self.steps > self.max_steps:
                # join with the states of the same typestate
                self.widened.add(g.key)
                tmp = len(vis) < 3 * self.LIMIT
                s = State({k: v for k, v in s.env.items()
                           if k in ("this", "$ret", "$throw") or
                           tmp and not isinstance(k, str) or
                           (v.tag is not None and self.p.keep(k, v))}, s.ts)
                if s.key() in vis or self.steps > 4 * self.max_steps:
                    continue
            vis[s.key()] = True
            work.extend(self.block(g, b, s, depth, outs, oseen))
        return outs

    def block(self, g, b, s, depth, outs, oseen):
        states = [s]
        eh = []
        succ = b["s"]
        term = b.get("t")
        has_eh = term is None and len(succ) == 2
        last_call = None
        if has_eh:
            for e in reversed(b["e"]):
                if e["op"] in ("call", "throw"):
                    last_call = e["i"]
                    break
        thrown = False
        for e in b["e"]:
            nxt = []
            if e["op"] == "throw":
                thrown = True
                for x in states:
                    r = self.p.elem(self, g, e, x)
                    nxt.extend([x] if r is None else r)
                states = nxt
                continue
            for x in states:
                if e["op"] == "ret":
                    v = self.val(g, e["a"][0], x) if e["a"] else UNK
                    if e["a"]:
                        p = self.path(g, e["a"][0], x)
                        if p is not None and v.al is None and \
                                g.ret.endswith(("&", "*")):
                            v = v.but(al=p)
                    x = x.set("$ret", v)
                    r = self.p.elem(self, g, e, x)
                    nxt.extend([x] if r is None else r)
                    continue
                if has_eh and e["i"] == last_call and self.p.follow_eh and \
                        self.p.may_throw(self, g, e):
                    eh.extend(self.p.eh(self, g, e, x))
                self.pending_eh = []
                rs = self.step(g, e, x, depth)
                for (pf, pe, ps) in self.pending_eh:
                    if has_eh and pe["i"] == last_call:
                        eh.extend(self.p.eh(self, g, e, ps))
                self.pending_eh = []
                nxt.extend(rs)
            if len(nxt) > 1:
                seen, u = set(), []
                for x in nxt:
                    if x.key() not in seen:
                        seen.add(x.key())
                        u.append(x)
                nxt = u
            states = nxt
            if not states:
                return []
        res = []
        if b.get("nr") and not thrown:
            return []  # terminates the process
        if thrown:
            for t in succ:
                if t >= 0:
                    for x in states:
                        if t == g.exit:
                            x = x.set("$throw", TRUE)
                        if self.p.follow_eh:
                            res.append((t, x))
            return res
        if has_eh:
            if succ[0] >= 0:
                for x in states:
                    res.append((succ[0], x))
            if succ[1] >= 0 and self.p.follow_eh:
                for x in eh:
                    if succ[1] == g.exit:
                        x = x.set("$throw", TRUE)
                    res.append((succ[1], x))
            return res
        if term is not None and term["k"] in ("IfStmt", "WhileStmt",
                                              "ForStmt", "DoStmt",
                                              "ConditionalOperator", "&&",
                                              "||", "CXXForRangeStmt",
                                              "BinaryConditionalOperator"):
            c = term.get("c", -1)
            for idx, truth in ((0, True), (1, False)):
                if idx < len(succ) and succ[idx] >= 0:
                    for x in states:
                        if c >= 0:
                            y = self.assume(g, c, truth, x)
                            if y is None:
                                continue
                        else:
                            y = x
                        y = self.p.branch(self, g, b, c, truth, y)
                        if y is not None:
                            res.append((succ[idx], y))
            return res
        if term is not None and term["k"] == "SwitchStmt":
            c = term.get("c", -1)
            for x in states:
                v = self.val(g, c, x) if c >= 0 else UNK
                taken = False
                for t in succ:
                    if t < 0:
                        continue
                    lb = g.blocks[t].get("lb")
                    if lb and lb["k"] == "case":
                        if isinstance(v.c, int):
                            if v.c in lb["v"]:
                                res.append((t, x))
                                taken = True
                        elif len(lb["v"]) == 1:
                            y = self.restrict(g, c, "==", const(lb["v"][0]),
                                              x, 0)
                            if y is not None:
                                res.append((t, y))
                dflt = succ[-1] if succ else -1
                if dflt >= 0 and not taken:
                    res.append((dflt, x))
            return res
        for t in succ:
            if t >= 0:
                for x in states:
                    if term is not None and term["k"] == "CXXTryStmt":
                        if t == g.exit:
                            # not caught by any handler
                            if not self.p.follow_eh:
                                continue
                            x = x.set("$throw", TRUE)
                    res.append((t, x))
        return res
