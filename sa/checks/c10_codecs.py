"""What is written is read back: for each stored or transmitted form the place
each part is written to (key, array position, position in a string) is the
place it is read from, for every part, whatever the other parts are.

Keys are found by following values backwards from where an object is
constructed to where they are taken out of the JSON value, and from where a
pair of key and value is formed back to the member of the object; whether a
part is written at all is decided by abstract evaluation of the writer with
just that part set."""
import re

import engine as E
import facts as F
import jsonkeys as J
import lib
import prov as PV

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "nlohmann::json stores and returns values under the key given to it",
    "fmt::format replaces the fields of the format string in order",
    "exceptions of the writer are not followed (nothing is written then)",
]
OPT = ("has_value", "operator bool", "empty")


def fname(e):
    return F.plain(e.get("fn", ""))


def bare(q):
    return F.plain(q).replace("", "")


def targs(t):
    """Template arguments of the outermost template."""
    out, depth, cur = [], 0, ""
    for ch in t[t.index("<") + 1:t.rindex(">")]:
        depth += {"<": 1, ">": -1, "(": 1, ")": -1}.get(ch, 0)
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


class EvEngine(E.Engine):
    """Collects the events of elements and asks the policy for the results of
    comparisons and the values of members."""

    def val(self, f, eid, st):
        v = super().val(f, eid, st)
        if not v.known() and eid is not None:
            e = f.el.get(eid)
            if e is not None and e["op"] == "mem":
                r = self.p.member(f, e)
                if r is not None:
                    return r
        return v

    def step(self, f, e, st, depth):
        evs = self.p.events(f, e)
        if evs:
            st = st.with_ts(st.ts | evs)
        if e["op"] == "bin" and e["k"] in ("==", "!="):
            r = self.p.compare(f, e, e["a"], e["k"] == "==")
            if r is not None:
                return [st.set(e["i"], r)]
        return super().step(f, e, st, depth)


class EvPolicy(lib.EvalPolicy):
    drop_dead = True

    def events(self, f, e):
        return frozenset()

    def member(self, f, e):
        return None

    def compare(self, f, e, args, eq):
        return None

    def elem(self, eng, f, e, st):
        return None

    def call(self, eng, f, e, st, depth):
        n = e.get("fn", "").rsplit("::", 1)[-1]
        if n in ("operator==", "operator!="):
            args = list(e.get("a", ()))
            if e.get("o") is not None:
                args = [e["o"]] + args
            r = self.compare(f, e, args, n == "operator==")
            if r is not None:
                return [(r, st)]
        return None


class Ctx:

    def __init__(self, fx, rep):
        self.fx = fx
        self.rep = rep
        self.K = J.Keys(fx, stop=("ArtifactDescription::FromJson",
                                  "DeserializeExpression"))
        self.P = PV.Prov(fx)
        self.callers = {}
        for k in fx.keys():
            g = fx.func(k)
            if not g.file.startswith(("src/", "/repo/src/")):
                continue
            for e in g.elems():
                if e["op"] in ("call", "ctor") and e.get("fk"):
                    self.callers.setdefault(e["fk"], []).append((g, e))

    # ---- construction of objects
    def inits(self, cls):
        """{(number of parameters): [(constructor, {param index: member})]}"""
        out = []
        for g in self.fx.named(cls + "::" + cls.rsplit("::", 1)[-1]):
            m = {}
            for e in g.elems():
                if e["op"] == "init" and e.get("m"):
                    for a in e.get("a", ()):
                        for x in self.P.of(g, a):
                            if x[0] == "p" and x[1] == g.key:
                                m.setdefault(x[2], set()).add(e["m"])
            out.append((g, m))
        return out

    def fields(self, cls):
        if cls.startswith(("std::pair<", "std::tuple<")):
            return [f"#{i}" for i in range(len(targs(cls)))]
        r = self.fx.records.get(cls)
        if r is None:
            raise F.AnalysisError("anchor vanished: record " + cls)
        return [f["n"] for f in r["fields"]]

    def built(self, fs, cls):
        """[(function, element, {member: [argument elements]})] of places
        where an object of the class is made."""
        short = cls.rsplit("::", 1)[-1]
        ctors = self.inits(cls)
        out = []
        seen = set()
        for f in fs:
            for g in self.K.nest(f):
                for e in g.elems():
                    if (g.key, e["i"]) in seen:
                        continue
                    seen.add((g.key, e["i"]))
                    m = self.built1(g, e, cls, short, ctors)
                    if m is not None:
                        out.append((g, e, m))
        return out

    def built1(self, g, e, cls, short, ctors):
        t = g.t(e)
        args = e.get("a", [])
        if e["op"] == "list" and self.same(t, cls) and args:
            fl = e.get("fs") or self.fields(cls)
            if len(args) == 1 and len(fl) > 1 and self.same(
                    g.t(g.el.get(args[0], {})), cls):
                return None
            return {m: [a] for m, a in zip(fl, args)}
        is_ctor = e["op"] == "ctor" and self.same(t, cls) and not e.get("cm")
        is_make = e["op"] == "call" and fname(e) in (
            "std::make_shared", "std::make_optional", "std::make_unique") and \
            re.search(r"<(.*::)?" + short + r">", t)
        if not (is_ctor or is_make) or not args:
            return None
        if is_ctor and len(args) == 1 and self.same(
                g.t(g.el.get(args[0], {})), cls):
            return None
        if is_ctor and cls.startswith(("std::pair<", "std::tuple<")):
            fl = self.fields(cls)
            return {m: [a] for m, a in zip(fl, args)} \
                if len(fl) == len(args) else None
        best = None
        for c, m in ctors:
            if is_ctor and e.get("fk") == c.key:
                best = m
                break
            if len(c.params) == len(args) and not (
                    is_ctor and e.get("fk") and self.fx.has(e["fk"])):
                best = m
        if best is None:
            return None
        out = {}
        for j, a in enumerate(args):
            for mem in best.get(j, ()):
                out.setdefault(mem, []).append(a)
        return out

    @staticmethod
    def same(t, cls):
        t = t.replace("const ", "").rstrip("&* ")
        return t == cls or t.endswith("::" + cls) or \
            cls.endswith("::" + t) and t != ""

    # ---- following parameters up to the callers
    def keys_up(self, f, eid, within, depth=0):
        """Access paths of a value; parameters are followed to the callers in
        `within` (a set of function keys)."""
        out = set()
        for r, ks in self.K._tr(f, eid, set()):
            if any(isinstance(x, tuple) for x in ks):
                continue
            if r is not None and depth < 4:
                ups = set()
                for g, e in self.callers.get(r[0], ()):
                    if self.K.outer(g).key in within and r[0] != \
                            self.K.outer(g).key and r[1] < len(e["a"]):
                        for u in self.keys_up(g, e["a"][r[1]], within,
                                              depth + 1):
                            ups.add(u + ks)
                if ups:
                    out |= ups
                    continue
            if ks:
                out.add(ks)
        return out

    def atoms_up(self, f, eid, within, depth=0):
        """Provenance ('this', path) / ('p', key, index, path)."""
        out = set()
        for x in self.P.of(f, eid):
            if x[0] == "p" and depth < 4:
                ups = set()
                for g, e in self.callers.get(x[1], ()):
                    if self.K.outer(g).key in within and x[1] != \
                            self.K.outer(g).key and x[2] < len(e["a"]):
                        for u in self.atoms_up(g, e["a"][x[2]], within,
                                               depth + 1):
                            if u[0] == "this":
                                ups.add(("this", u[1] + x[3]))
                            elif u[0] == "p":
                                ups.add(u[:3] + (u[3] + x[3],))
                            else:
                                ups.add(u)
                if ups:
                    out |= ups
                    continue
            out.add(x)
        return out

    def reach(self, f, stop=()):
        """Functions of the repository called from f (transitively)."""
        out, todo = {}, [f]
        while todo:
            g = todo.pop()
            if g.key in out:
                continue
            out[g.key] = g
            for h in self.K.nest(g):
                for e in h.elems():
                    k = e.get("fk")
                    if e["op"] in ("call", "ctor") and k and self.fx.has(k) \
                            and k not in out:
                        n = self.fx.func(k)
                        if n.kind != "lambda" and n.file.startswith("src/") \
                                and not n.q.startswith("Logger::") and \
                                bare(n.q) not in stop:
                            todo.append(n)
        return out


# --------------------------------------------------------------------------
def objects(cx):
    """Members of objects that are written and read by key."""
    fx, rep = cx.fx, cx.rep
    specs = [
        # classes, writer, reader, members that are not written
        (("ActionDescription", "Action"), "ActionDescription::ToJson",
         "ActionDescription::FromJson", {"id_": "the key it is stored under",
                                         "is_tree_": "not of a description",
                                         "is_tree_overlay_": "as above",
                                         "overlay_disjoint_": "as above"}),
        (("TreeOverlay",), "TreeOverlay::ToJson", "TreeOverlay::FromJson",
         {"id_": "the key it is stored under"}),
        (("TargetResult",),
         "SerializeTargetResultWithReplacement",
         "TargetResult::FromJson", {"is_cacheable": "always true"}),
    ]
    n = 0
    for classes, wn, rn, skip in specs:
        w, r = lib.one(fx, wn), lib.one(fx, rn)
        writer = writes(cx, classes, w)
        reader = reads(cx, classes, r)
        members = []
        for c in classes:
            for m in cx.fields(c):
                ty = next((f.get("ty") for f in fx.records[c]["fields"]
                           if f["n"] == m), "")
                if m in skip or m.rstrip("_") in (
                        x.lower() for x in classes):
                    continue
                members.append((c, m))
        for c, m in members:
            n += 1
            wk, rk = writer.get(m, set()), reader.get(m, set())
            rep.ob(f"member {c}::{m} [{wn.rsplit('::', 1)[-1]}]",
                   bool(wk) and wk == rk,
                   f"{c}::{m} is written under {sorted(wk) or 'no key'} by "
                   f"{w.short()} and read from {sorted(rk) or 'no key'} by "
                   f"{r.short()}",
                   f"{c}::{m} <-> {sorted(wk)}")
        guarded(cx, classes, w, writer, {m for _, m in members})
    rep.count("members written and read by key", n, 12)


def top(path, classes):
    for p in path:
        if p.rstrip("_") in (x.lower() for x in classes):
            continue
        return p
    return None


def writes(cx, classes, w):
    """{member: {key}}"""
    out = {}
    fs = cx.reach(w, stop=("ArtifactDescription::ToJson",
                           "SerializeProvidesMap",
                           "SerializeExpression",
                           "Expression::ToJson", "ExpressionPtr::ToJson"))
    for g0 in fs.values():
        for g, e, k, v in cx.K.pairs(g0):
            at = cx.atoms_up(g, v, set(fs))
            ms = members_of(at, classes)
            if not ms:
                for c in cx.P.controls(g, e["B"]):
                    ms |= members_of(cx.atoms_up(g, c, set(fs)), classes)
            for m in ms:
                out.setdefault(m, set()).add(k)
    return out


def members_of(atoms, classes):
    out = set()
    for x in atoms:
        path = x[1] if x[0] == "this" else x[3] if x[0] == "p" else None
        if path:
            t = top(path, classes)
            if t is not None:
                out.add(t)
    return out


def reads(cx, classes, r):
    out = {}
    fs = cx.reach(r, stop=("ArtifactDescription::FromJson",
                           "DeserializeExpression"))
    for c in classes:
        for g, e, m in cx.built(fs.values(), c):
            for mem, args in m.items():
                for a in args:
                    for ks in cx.keys_up(g, a, set(fs)):
                        out.setdefault(mem, set()).add(ks[0])
    return out


class Just(EvPolicy):
    """Evaluates a writer on an object that has just one member set."""

    def __init__(self, cx, classes, member, pairs):
        super().__init__()
        self.cx = cx
        self.classes = classes
        self.mem = member
        self.pairs = pairs

    def mine(self, f, eid):
        return members_of(self.cx.P.of(f, eid), self.classes) == {self.mem}

    def events(self, f, e):
        return frozenset(k for _, _, k, _ in
                         self.pairs.get((f.key, e["i"]), ()))

    def compare(self, f, e, args, eq):
        return E.const(not eq) if self.mine(f, e["i"]) else None

    def member(self, f, e):
        if f.t(e) in ("bool", "const bool") and self.mine(f, e["i"]):
            return E.TRUE
        return None

    def inline(self, eng, f, e, g, st, depth):
        return g.kind == "lambda"

    def call(self, eng, f, e, st, depth):
        n = e.get("fn", "").rsplit("::", 1)[-1]
        if n.startswith("operator=") or n.startswith("operator!"):
            if any("Iterator" in f.t(f.el.get(a, {})) or "iterator" in
                   f.t(f.el.get(a, {})) for a in e.get("a", ())):
                return None
            return super().call(eng, f, e, st, depth)
        if e.get("o") is not None and not e.get("a") and (
                n in OPT or f.t(e) in ("bool", "const bool &",
                                       "const bool")):
            if self.mine(f, e["i"]):
                return [(E.const(n != "empty"), st)]
        if e.get("o") is not None and n == "size" and self.mine(f, e["i"]):
            return [(E.AV(E.POS), st)]
        return None


def guarded(cx, classes, w, writer, members):
    fx, rep = cx.fx, cx.rep
    pairs = {}
    for g, e, k, v in cx.K.pairs(w):
        pairs.setdefault((g.key, e["i"]), []).append((g, e, k, v))
    if not pairs:
        return
    for m in sorted(members):
        keys = writer.get(m, set())
        pol = Just(cx, classes, m, {
            x: [q for q in ps if q[2] in keys] for x, ps in pairs.items()})
        outs = EvEngine(fx, pol).run(w, E.State({}, frozenset()))
        mine = {k for ps in pairs.values() for _, _, k, _ in ps} & keys
        bad = [o for o in outs if o.how == "ret" and mine - o.st.ts]
        rep.ob(f"written {classes[0]}::{m}", not bad or not mine,
               f"{w.short()} can return without {sorted(mine)} although "
               f"{m} is set")


# --------------------------------------------------------------------------
class Alt(EvPolicy):
    """Evaluates the writer for one alternative of a variant, or the reader
    for one type tag."""
    max_depth = 4

    def __init__(self, cx, alt=None, tag=None):
        super().__init__()
        self.cx = cx
        self.alt = alt
        self.tag = tag

    def events(self, f, e):
        if self.alt is not None:
            k = self.cx.typepairs.get((f.key, e["i"]))
            if k is not None:
                return frozenset({("tag", k)})
        elif e["op"] in ("list", "ctor", "call"):
            c = self.cx.altof(f, e)
            if c is not None:
                return frozenset({("alt", c)})
        return frozenset()

    def inline(self, eng, f, e, g, st, depth):
        return g.file.endswith(("artifact_description.cpp",
                                "artifact_description.hpp")) and \
            not g.q.endswith("ComputeId")

    def compare(self, f, e, args, eq):
        if self.tag is None:
            return None
        return tagged(self.cx, f, args, eq, self.tag)

    def call(self, eng, f, e, st, depth):
        n = e.get("fn", "").rsplit("::", 1)[-1]
        if self.alt is not None and fname(e) in (
                "std::holds_alternative", "std::get_if"):
            same = e.get("ta", "") == self.alt
            v = E.const(same) if "holds" in fname(e) else \
                E.AV(E.POS if same else E.ZERO)
            return [(v, st)]
        if self.alt is not None and n == "index" and not e.get("a"):
            return [(E.const(self.cx.alts.index(self.alt)), st)]
        return super().call(eng, f, e, st, depth)


def tagged(cx, f, args, eq, tag):
    """Result of comparing the value of the key "type" with a constant."""
    for j, a in enumerate(args):
        c = cx.K.const(f, a)
        if isinstance(c, str) and len(args) == 2:
            ks = cx.K.trace(f, args[1 - j])
            if ks and all(k[-1] == "type" for k in ks):
                return E.const((c == tag) == eq)
    return None


def variants(cx):
    """Alternatives of artifact descriptions."""
    fx, rep = cx.fx, cx.rep
    w = lib.one(fx, "ArtifactDescription::ToJson")
    r = lib.one(fx, "ArtifactDescription::FromJson")
    rec = fx.records.get("ArtifactDescription")
    if rec is None:
        raise F.AnalysisError("anchor vanished: record ArtifactDescription")
    ty = [f.get("ty", "") for f in rec["fields"]
          if str(f.get("ty", "")).startswith("std::variant<")]
    if len(ty) != 1:
        raise F.AnalysisError("anchor vanished: variant of "
                              "ArtifactDescription")
    cx.alts = targs(ty[0])
    rep.count("alternatives of artifact descriptions", len(cx.alts), 5)
    wf, rf = cx.reach(w), cx.reach(r)
    cx.typepairs = {}
    for g0 in wf.values():
        for g, e, k, v in cx.K.pairs(g0):
            if k == "type":
                cx.typepairs[(g.key, e["i"])] = cx.K.const(g, v)
    made = {}
    for a in cx.alts:
        for g, e, m in cx.built(rf.values(), a):
            if not g.q.startswith("Artifact::"):
                made[(g.key, e["i"])] = (a, g, e, m)
    cx.altof = lambda f, e: made.get((f.key, e["i"]), (None,))[0]
    tags = {}
    for a in cx.alts:
        outs = EvEngine(fx, Alt(cx, alt=a)).run(w, E.State({}, frozenset()))
        got = {frozenset(x[1] for x in o.st.ts if x[0] == "tag")
               for o in outs if o.how == "ret"}
        ok = len(got) == 1 and len(next(iter(got))) == 1
        rep.ob("tag " + a, ok,
               f"{w.short()} writes {sorted(map(sorted, got))} as the type of "
               f"{a}, expected exactly one", f"type tag of {a}")
        if ok:
            tags[a] = next(iter(next(iter(got))))
    rep.ob("tags distinct", len(set(tags.values())) == len(tags),
           f"types of artifact descriptions are not distinct: {tags}")
    for a, t in sorted(tags.items()):
        outs = EvEngine(fx, Alt(cx, tag=t)).run(r, E.State({}, frozenset()))
        got = {x[1] for o in outs if o.how == "ret" for x in o.st.ts
               if x[0] == "alt"}
        rep.ob("read " + a, got == {a},
               f"{r.short()} turns the type {t} into {sorted(got)}, but it is "
               f"written for {a}")
    # members
    n = 0
    for a in cx.alts:
        fl = cx.fields(a)
        rk = {}
        for (_, (c, g, e, m)) in made.items():
            if c == a:
                for mem, args in m.items():
                    for x in args:
                        rk.setdefault(mem, set()).update(
                            k[-1] if isinstance(k[-1], str) else k[-2]
                            for k in cx.keys_up(g, x, set(rf)))
        wk = {}
        # calls of the writer whose argument is taken out of the alternative
        for g0 in wf.values():
            for g, e, k, v in cx.K.pairs(g0):
                if k == "type":
                    continue
                for al, mem in alt_members(cx, g, v, set(wf)):
                    if al == a:
                        wk.setdefault(mem, set()).add(k)
        for mem in fl:
            if a.startswith("std::tuple<") and mem == "#2":
                continue        # a hint that is not part of the description
            n += 1
            x, y = wk.get(mem, set()), rk.get(mem, set())
            if a.startswith("std::tuple<") and mem == "#0":
                rep.ob("member digest", x == {"id", "size"} and
                       x | {"file_type"} >= y >= x,
                       f"the digest of a known artifact is written under "
                       f"{sorted(x)} and read from {sorted(y)}")
                continue
            rep.ob(f"member {a}::{mem}", bool(x) and x == y,
                   f"{a}::{mem} is written under {sorted(x) or 'no key'} and "
                   f"read from {sorted(y) or 'no key'}",
                   f"{a}::{mem} <-> {sorted(x)}")
    rep.count("members of alternatives", n, 8)


def alt_members(cx, f, eid, within, depth=0, seen=None):
    """{(alternative, member)} a value is taken from."""
    out = set()
    seen = set() if seen is None else seen
    if eid is None or eid < 0 or (f.key, eid) in seen or depth > 40:
        return out
    seen.add((f.key, eid))
    e = f.el.get(eid)
    if e is None:
        return out
    if e["op"] == "ref":
        v = e.get("v")
        p = cx.K.param(f, v)
        if p is not None:
            for g, c in cx.callers.get(p[0], ()):
                if cx.K.outer(g).key in within and p[1] < len(c["a"]):
                    out |= alt_members(cx, g, c["a"][p[1]], within,
                                       depth + 1, seen)
            return out
        if e.get("k") == "b" and e.get("dec"):
            fl = {a: cx.fields(a) for a in alternatives(cx, f, e["dec"])}
            ix = e.get("ix")
            return {(a, x[ix]) for a, x in fl.items()
                    if ix is not None and ix < len(x)}
        for g, i in cx.K.stores(f).get(v, ()):
            out |= alt_members(cx, g, i, within, depth + 1, seen)
        return out
    if e["op"] == "mem":
        b = f.el.get(e.get("b"), {})
        t = f.t(b).replace("const ", "").rstrip("&* ")
        m = {"first": "#0", "second": "#1"}.get(e["m"], e["m"])
        if t in cx.alts:
            return {(t, m)}
        return alt_members(cx, f, e.get("b"), within, depth + 1, seen)
    if e["op"] == "call" and fname(e).startswith("std::get") and \
            len(e.get("a", ())) == 1:
        t = f.t(f.el.get(e["a"][0], {})).replace("const ", "").rstrip("&* ")
        if t in cx.alts:
            fl = cx.fields(t)
            m = re.search(r"get<#V?(\d+)", e.get("fk", ""))
            return {(t, x) for x in (fl if m is None else
                                     fl[int(m.group(1)):][:1])}
    if e["op"] == "lambda":
        return out
    for c in E.Engine.children(e):
        out |= alt_members(cx, f, c, within, depth + 1, seen)
    return out


def alternatives(cx, f, var):
    out = set()
    todo = list(cx.K.stores(f).get(var, ()))
    n = 0
    while todo and n < 60:
        n += 1
        g, i = todo.pop()
        e = g.el.get(i)
        if e is None:
            continue
        if e["op"] == "call" and e.get("ta"):
            out |= {a for a in cx.alts if a == e["ta"]}
            continue
        if e["op"] == "ref":
            todo += cx.K.stores(g).get(e.get("v"), ())
            continue
        todo += [(g, c) for c in E.Engine.children(e)]
    return out


# --------------------------------------------------------------------------
class Role(EvPolicy):
    max_depth = 2

    def __init__(self, cx, what, value, selfname):
        super().__init__()
        self.cx = cx
        self.what = what        # 'is', 'in' or 'type'
        self.value = value
        self.selfname = selfname

    def inline(self, eng, f, e, g, st, depth):
        return g.kind == "lambda"

    def events(self, f, e):
        """Events of an element."""
        cx = self.cx
        out = set()
        if e["op"] in ("list", "ctor", "call"):
            t = f.t(e).replace("const ", "")
            if e["op"] in ("list", "ctor") and e.get("a") and \
                    not e.get("cm"):
                for c in ("TargetNode::Abstract", "TargetResult",
                          "TargetNode"):
                    if t == c:
                        a0 = f.el.get(e["a"][0], {})
                        t0 = f.t(a0).replace("const ", "").rstrip("& ")
                        if c == "TargetNode":
                            if "ExpressionPtr" in t0:
                                out.add(("make", "value"))
                        elif t0 != c:
                            out.add(("make", c))
            if e["op"] == "call" and fname(e) == \
                    "ArtifactDescription::FromJson":
                out.add(("make", "artifact"))
            n = fname(e).rsplit("::", 1)[-1]
            if n in ("emplace_back", "push_back", "emplace", "insert",
                     "insert_or_assign") and \
                    e.get("o") is not None:
                v = cx.K.var(f, e["o"])
                p = cx.K.param(f, v) if v else None
                if p:
                    out.add(("store", p[1]))
            if e.get("opk") == "=" and e.get("o") is not None or \
                    e["op"] == "asg":
                v = cx.K.var(f, e["o"] if e.get("o") is not None
                             else e["a"][0])
                p = cx.K.param(f, v) if v else None
                if p:
                    out.add(("store", p[1]))
        k = cx.pairsat.get((f.key, e["i"]))
        if k:
            for key, val in k:
                out.add(("pair", key, val))
        return frozenset(out)

    def compare(self, f, e, args, eq):
        if self.what != "type":
            return None
        return tagged(self.cx, f, args, eq, self.value)

    def call(self, eng, f, e, st, depth):
        n = fname(e).rsplit("::", 1)[-1]
        if self.what == "is" and n in ROLES and not e.get("a"):
            return [(E.const(n == self.value), st)]
        if n in ("contains", "count") and e.get("o") is not None:
            v = self.cx.K.var(f, e["o"])
            p = self.cx.K.param(f, v) if v else None
            if p:
                if self.what == "is":
                    return [(E.const(False), st)]
                return [(E.const(p[1] == (
                    self.value if self.what == "in" else self.role)), st)]
        if self.what in ("in", "type") and n == "is_object":
            return [(E.const(True), st)]
        if fname(e) == self.selfname:
            return [(E.UNK, st)]
        return super().call(eng, f, e, st, depth)


ROLES = ("IsMap", "IsList", "IsNode", "IsResult", "IsArtifact", "IsNone",
         "IsString", "IsNumber", "IsBool", "IsName")
MAKES = {"IsArtifact": {"artifact"}, "IsResult": {"TargetResult"},
         "IsNode": {"TargetNode::Abstract", "value"}}


def expressions(cx):
    """Provided values: nodes, results and artifacts in them."""
    fx, rep = cx.fx, cx.rep
    se = lib.one(fx, "SerializeExpression")
    de = lib.one(fx, "DeserializeExpression")
    sp = lib.one(fx, "SerializeProvidesMap")
    dp = lib.one(fx, "DeserializeProvidesMap")
    cx.pairsat = {}
    recs = []
    for g, e, k, v in cx.K.pairs(se):
        c = cx.K.const(g, v)
        cx.pairsat.setdefault((g.key, e["i"]), []).append(
            (k, c if isinstance(c, str) else None))
        recs.append((g, e, k, v))

    def run(f, what, val, role=None):
        pol = Role(cx, what, val, F.plain(f.q))
        pol.role = role
        eng = EvEngine(fx, pol)
        return [o.st.ts for o in eng.run(f, E.State({}, frozenset()))
                if o.how == "ret"]

    # which list an expression of a kind is recorded in
    wrole = {}
    plain = set()
    for x in run(se, "is", "IsMap"):
        plain |= {ev[1] for ev in x if ev[0] == "store"}
    for r in MAKES:
        got = run(se, "is", r)
        all_ = set.intersection(*[{ev[1] for ev in x if ev[0] == "store"}
                                  for x in got]) if got else set()
        wrole[r] = all_ - plain
        rep.ob("kept " + r, plain <= all_ and bool(plain),
               f"{se.short()} does not store the serialised value of an "
               f"expression with {r} on every path")
    # what is made of an entry of a list
    rrole = {}
    for j, p in enumerate(de.params):
        got = run(de, "in", j)
        made = {ev[1] for x in got for ev in x if ev[0] == "make"}
        if made:
            rrole[j] = made
    base = set()
    for x in run(de, "in", None):
        base |= {ev[1] for ev in x if ev[0] == "make"}
    rep.ob("no role", not base, f"{de.short()} makes {sorted(base)} of an "
           "entry that is in none of the lists")
    # the lists by key
    wkey, rkey = {}, {}
    for g, e, k, v in cx.K.pairs(sp):
        var = cx.K.var(g, v)
        for h in cx.K.nest(sp):
            for c in h.elems():
                if c["op"] == "call" and c.get("fk") == se.key:
                    for j, a in enumerate(c["a"]):
                        if cx.K.var(h, addr(h, a)) == var:
                            wkey.setdefault(j, set()).add(k)
                    ents = cx.K.stores(sp).get(var, ())
                    if any(i == c["i"] for _, i in ents):
                        wkey.setdefault("entry", set()).add(k)
    for h in cx.K.nest(dp):
        for c in h.elems():
            if c["op"] == "call" and c.get("fk") == de.key:
                for j, a in enumerate(c["a"]):
                    for ks in cx.K.trace(h, a):
                        rkey.setdefault(j, set()).add(ks[0])
    for r, makes in MAKES.items():
        js = wrole.get(r, set())
        wk = set().union(*[wkey.get(j, set()) for j in js]) if js else set()
        rk = set()
        for j, m in rrole.items():
            if m & makes:
                rk |= rkey.get(j, set())
        rep.ob("role " + r, len(wk) == 1 and wk == rk,
               f"expressions with {r} are recorded under {sorted(wk)} but "
               f"{sorted(makes)} are made of the entries of {sorted(rk)}",
               f"{r} <-> {sorted(wk)}")
    for j, m in rrole.items():
        rep.ob(f"one role {sorted(rkey.get(j, ['?']))[0]}", any(
            m == x for x in MAKES.values()),
            f"{de.short()} makes {sorted(m)} of the entries of "
            f"{sorted(rkey.get(j, ()))}")
    # the entry point and the nodes
    rest_w = set().union(*[wkey.get(j, set()) for j in plain]) if plain \
        else set()
    jn = {j for j, ks in rkey.items() if j not in rrole}
    rest_r = set().union(*[rkey[j] for j in jn]) if jn else set()
    we = wkey.get("entry", set())
    rep.ob("entry", bool(we) and we | rest_w == rest_r and len(rest_w) == 1,
           f"entry and nodes are written under {sorted(we)}, {sorted(rest_w)} "
           f"and read from {sorted(rest_r)}", f"{sorted(we | rest_w)}")
    nodes_j = {j for j in jn if rkey[j] == rest_w}
    at = {p for g in cx.K.nest(de) for e in g.elems()
          if e["op"] == "call" and fname(e).rsplit("::", 1)[-1] in (
              "at", "operator[]", "find") and e.get("o") is not None
          for p in [cx.K.param(g, cx.K.var(g, e["o"]) or "")] if p}
    rep.ob("nodes used", any(p[1] in nodes_j for p in at),
           f"{de.short()} does not look entries up in the value of "
           f"{sorted(rest_w)}")
    # members of nodes and results
    n = 0
    for cls in ("TargetNode::Abstract", "TargetResult", "TargetNode"):
        rk = {}
        if cls == "TargetNode":
            for g in cx.K.nest(de):
                for e in g.elems():
                    if e["op"] == "ctor" and g.t(e) == cls and e.get("a") \
                            and "ExpressionPtr" in g.t(g.el[e["a"][0]]):
                        rk.setdefault("GetValue", set()).update(
                            k[-1] for k in cx.K.trace(g, e["a"][0]))
            fl = ["GetValue"]
        else:
            for g, e, m in cx.built([de], cls):
                for mem, args in m.items():
                    for a in args:
                        rk.setdefault(mem, set()).update(
                            k[-1] for k in cx.K.trace(g, a))
            fl = [x for x in cx.fields(cls) if x != "is_cacheable"]
        wk = {}
        for g, e, k, v in recs:
            for m in source(cx, g, v, se, cls):
                wk.setdefault(m, set()).add(k)
        for m in fl:
            n += 1
            x, y = wk.get(m, set()), rk.get(m, set())
            rep.ob(f"member {cls}::{m} in provided values",
                   bool(x) and x == y,
                   f"{cls}::{m} is written under {sorted(x)} by {se.short()} "
                   f"and read from {sorted(y)}", f"{cls}::{m} <-> {sorted(x)}")
    rep.count("members of provided values", n, 7)
    # tags of nodes
    tags = {}
    for x in run(se, "is", "IsNode"):
        ps = {ev for ev in x if ev[0] == "pair"}
        t = {ev[2] for ev in ps if ev[2] is not None}
        ks = {ev[1] for ev in ps if ev[2] is None}
        if len(t) == 1:
            tags.setdefault(next(iter(t)), set()).update(ks)
        else:
            tags.setdefault("?", set()).update(ks)
    rep.ob("node tags", len(tags) == 2 and "?" not in tags,
           f"{se.short()} does not write one type for each kind of node: "
           f"{sorted(tags)}")
    nj = [j for j, m in rrole.items() if m & MAKES["IsNode"]]
    for t, ks in tags.items():
        got = set()
        for x in run(de, "type", t, nj[0] if nj else None):
            got |= {ev[1] for ev in x if ev[0] == "make"}
        want = {"TargetNode::Abstract"} if "node_type" in ks else {"value"}
        rep.ob("node tag " + t, got == want,
               f"a node with the type {t}, written with {sorted(ks)}, is read "
               f"back as {sorted(got)}", f"{t} <-> {sorted(want)}")


def addr(h, a):
    e = h.el.get(a)
    n = 0
    while e is not None and n < 8:
        n += 1
        if e["op"] in ("ctor", "cast", "un") and e.get("a"):
            a = e["a"][0]
            e = h.el.get(a)
        else:
            break
    return a


def source(cx, f, eid, rec, cls, seen=None):
    """Members of cls a value stems from, through the recursive call."""
    seen = set() if seen is None else seen
    if eid is None or eid < 0 or (f.key, eid) in seen:
        return set()
    seen.add((f.key, eid))
    e = f.el.get(eid)
    if e is None:
        return set()
    if e["op"] == "ref":
        out = set()
        for g, i in cx.K.stores(f).get(e.get("v"), ()):
            out |= source(cx, g, i, rec, cls, seen)
        return out
    if e["op"] == "mem" and not e.get("isf"):
        t = f.t(f.el.get(e.get("b"), {})).replace("const ", "").rstrip("&* ")
        if t == cls:
            return {e["m"]}
        return source(cx, f, e.get("b"), rec, cls, seen)
    if e["op"] == "call":
        if fname(e) == "TargetNode::GetValue":
            return {"GetValue"} if cls == "TargetNode" else set()
        if e.get("fk") == rec.key:
            out = set()
            for a in e["a"]:
                if "ExpressionPtr" in f.t(f.el.get(a, {})) and \
                        "map" not in f.t(f.el.get(a, {})):
                    out |= source(cx, f, a, rec, cls, seen)
            return out
    if e["op"] in ("lambda", "str", "int"):
        return set()
    out = set()
    for c in E.Engine.children(e):
        out |= source(cx, f, c, rec, cls, seen)
    return out


# --------------------------------------------------------------------------
def positions(cx):
    """Array positions and other single keys."""
    fx, rep = cx.fx, cx.rep
    w = lib.one(fx, "ToJson", lambda g: g.file.endswith(
        "tree_structure_cache.cpp"))
    r = lib.one(fx, "Parse", lambda g: g.file.endswith(
        "tree_structure_cache.cpp"))
    parts = ("hash", "size", "IsTree")
    wp = {}
    for g in cx.K.nest(w):
        for e in g.elems():
            if e["op"] == "list" and len(e.get("a", ())) == 3:
                for j, a in enumerate(e["a"]):
                    for p in parts:
                        if any(x[0] == "fn" and x[1] ==
                               "ArtifactDigest::" + p
                               for x in fns(cx, g, a)):
                            wp.setdefault(p, set()).add(j)
    rp = {}
    for g in cx.K.nest(r):
        for e in g.elems():
            if e["op"] == "call" and fname(e) == \
                    "ArtifactDigestFactory::Create" and len(e["a"]) >= 4:
                for p, a in zip(parts, e["a"][1:4]):
                    rp.setdefault(p, set()).update(
                        k[-1] for k in cx.K.trace(g, a))
    for p in parts:
        rep.ob("tree structure cache " + p,
               bool(wp.get(p)) and wp.get(p) == rp.get(p),
               f"{p} of a cached digest is written at {sorted(wp.get(p, ()))}"
               f" and read from {sorted(rp.get(p, ()), key=str)}",
               f"{p} at {wp.get(p)}")
    # implied export targets
    w = lib.one(fx, "TargetCacheEntry::FromTarget")
    wk = {k for g, e, k, v in cx.K.pairs(w)}
    rep.ob("implied written", len(wk) == 1,
           f"{w.short()} adds {sorted(wk)} to the result of a target, "
           "expected one key")
    for n in ("TargetCacheEntry::ToImplied", "TargetCacheEntry::ToImpliedIds"):
        r = lib.one(fx, n)
        ks, cs = set(), set()
        for g in cx.K.nest(r):
            for e in g.elems():
                if e["op"] == "call" and e.get("o") is not None and \
                        "json" in g.t(g.el.get(e["o"], {})):
                    m = fname(e).rsplit("::", 1)[-1]
                    if m in ("contains", "operator[]", "at", "find",
                             "value", "count"):
                        for a in e.get("a", ()):
                            c = cx.K.const(g, a)
                            if isinstance(c, str):
                                (ks if m not in ("contains", "count")
                                 else cs).add(c)
        rep.ob("implied " + n, bool(ks) and ks == wk and cs <= wk,
               f"{r.short()} reads {sorted(ks | cs)} but {w.short()} writes "
               f"{sorted(wk)}", f"{n} reads {sorted(ks)}")
    # object info as JSON is the data of a known artifact
    w = lib.one(fx, "Artifact::ObjectInfo::ToJson")
    k = lib.one(fx, "DescribeKnownArtifact")
    a = {x[2] for x in cx.K.pairs(w)}
    b = {x[2] for x in cx.K.pairs(k) if x[2] != "type"}
    rep.ob("object info", a == b,
           f"{w.short()} writes {sorted(a)} but the data of a known artifact "
           f"is {sorted(b)}", f"{sorted(a)}")


def formats(cx, f):
    """[(element, [text or element])] of calls of fmt::format."""
    out = []
    for g in cx.K.nest(f):
        for e in g.elems():
            if e["op"] == "call" and fname(e) == "fmt::format" and e["a"]:
                t = cx.K.const(g, e["a"][0])
                if not isinstance(t, str):
                    continue
                parts, args = [], list(e["a"][1:])
                for x in re.split(r"(\{\})", t):
                    if x == "{}":
                        parts.append(args.pop(0) if args else None)
                    elif x:
                        parts.append(x)
                out.append((g, e, parts))
    return out


def label(cx, g, eid, params):
    """What a field of a formatted string is."""
    names = {x[1].rsplit("::", 1)[-1] for x in fns(cx, g, eid)}
    at = cx.P.of(g, eid)
    for x in at:
        if x[0] == "g" and x[1].startswith("ByteStreamUtils::k"):
            return x[1].rsplit("::", 1)[-1]
    mems = {m for x in at if x[0] in ("this", "p")
            for m in x[1 if x[0] == "this" else 3]}
    for n in ("hash", "size"):
        if n in names and not ({"hash", "size"} - {n}) & names:
            return n
    for x in at:
        if x[0] == "p" and x[2] < len(params) and not x[3]:
            return params[x[2]][1]
    for m in sorted(mems):
        if m.rstrip("_") in ("host", "port", "type"):
            return m.rstrip("_")
    return None


def streams(cx):
    """Names of resources: parts separated by a character."""
    fx, rep = cx.fx, cx.rep
    n = 0
    for cls in ("ByteStreamUtils::ReadRequest",
                "ByteStreamUtils::WriteRequest"):
        w = lib.one(fx, cls + "::ToString")
        r = lib.one(fx, cls + "::FromString")
        rd, base = {}, set()
        counts = set()
        for g in cx.K.nest(r):
            for e in g.elems():
                tgt = None
                if e["op"] == "asg":
                    tgt, src = e["a"][0], e["a"][1]
                elif e["op"] == "call" and e.get("opk") == "=" and \
                        e.get("o") is not None:
                    tgt, src = e["o"], e["a"][0]
                if tgt is not None:
                    t = g.el.get(tgt, {})
                    if t.get("op") == "mem" and t.get("v", "").startswith(
                            cls):
                        rd.setdefault(t["m"], set()).update(
                            offsets(cx, g, src))
                    elif t.get("op") == "ref" and g.t(t) in (
                            "int", "unsigned long", "std::size_t", "long"):
                        for c in cx.P.controls(g, e["B"], True):
                            for x in cx.P.of(g, c):
                                if x[0] == "g" and x[1].startswith(
                                        "ByteStreamUtils::k") and \
                                        "Other" not in x[1]:
                                    base.add(x[1].rsplit("::", 1)[-1])
                if e["op"] == "bin" and e["k"] in ("==", "!="):
                    for a, b in (e["a"], e["a"][::-1]):
                        x = g.el.get(a, {})
                        if x.get("op") == "call" and fname(x).endswith(
                                "::size"):
                            o = offset(cx, g, b)
                            if o is not None:
                                counts.add(o)
        fmts = formats(cx, w)
        rep.ob(f"{cls} forms", len(fmts) >= 1 and len(base) == 1,
               f"{r.short()} looks for {sorted(base)}, expected one keyword")
        if len(base) != 1:
            continue
        key = next(iter(base))
        for g, e, parts in fmts:
            ls = [x if isinstance(x, str) else label(cx, g, x, w.params)
                  for x in parts]
            fields = ls[0::2]
            if key not in fields or any(x != "/" for x in ls[1::2]):
                rep.ob(f"{cls} keyword", False,
                       f"{w.short()} writes {ls}, where {r.short()} looks "
                       f"for {key} between '/'")
                continue
            k = fields.index(key)
            want = {x: i - k for i, x in enumerate(fields) if x and i > k}
            n += 1
            rep.ob(f"{cls} length {len(fields)}",
                   counts == {len(fields) - k},
                   f"{w.short()} writes {len(fields) - k} parts from {key} "
                   f"on, {r.short()} expects {sorted(counts)}")
            for m, offs in sorted(rd.items()):
                x = m.rstrip("_")
                if x == "instance_name":
                    continue
                n += 1
                rep.ob(f"{cls} {m} {len(fields)}", offs == {want.get(x)},
                       f"{w.short()} writes {x} {want.get(x)} parts after "
                       f"{key}, {r.short()} reads it {sorted(offs)} after",
                       f"{cls} {m} at {key}+{want.get(x)}")
            rep.ob(f"{cls} complete {len(fields)}", {
                m.rstrip("_") for m in rd} >= {
                    x for x in want if not x.startswith("k")},
                   f"{r.short()} does not read {sorted(want)}")
    rep.count("positions in names of resources", n, 10)


def offset(cx, g, eid):
    """The constant that is added to a variable."""
    n = 0
    while eid is not None and eid >= 0 and n < 20:
        n += 1
        e = g.el.get(eid)
        if e is None:
            return None
        if e["op"] in ("cast", "ctor") and e.get("a"):
            eid = e["a"][0]
        elif e["op"] == "bin" and e["k"] in ("+", "-"):
            l, r = e["a"]
            for a, b in ((l, r), (r, l)):
                c = cx.K.const(g, b)
                if isinstance(c, int):
                    o = offset(cx, g, a)
                    return None if o is None else o + (
                        c if e["k"] == "+" else -c)
            return None
        elif e["op"] == "ref":
            ss = [x for x in cx.K.stores(g).get(e.get("v"), ())]
            if len(ss) == 1:
                x = ss[0][0].el.get(ss[0][1], {})
                if x.get("op") == "bin":
                    return offset(cx, *ss[0])
            return 0
        else:
            return None
    return None


def offsets(cx, g, eid, seen=None):
    seen = set() if seen is None else seen
    if eid is None or eid < 0 or (g.key, eid) in seen:
        return set()
    seen.add((g.key, eid))
    e = g.el.get(eid)
    if e is None:
        return set()
    if e["op"] == "call" and e.get("o") is not None and fname(e).rsplit(
            "::", 1)[-1] in ("operator[]", "at") and e.get("a"):
        return {offset(cx, g, e["a"][0])}
    out = set()
    if e["op"] == "ref":
        for h, i in cx.K.stores(g).get(e.get("v"), ()):
            out |= offsets(cx, h, i, seen)
        return out
    for c in E.Engine.children(e):
        out |= offsets(cx, g, c, seen)
    return out


class Gets(EvPolicy):
    """Order of the calls of std::getline."""

    def __init__(self, cx):
        super().__init__()
        self.cx = cx

    def call(self, eng, f, e, st, depth):
        if fname(e) == "std::getline" and len(e["a"]) >= 2:
            v = self.cx.K.var(f, e["a"][1])
            d = self.cx.K.const(f, e["a"][2]) if len(e["a"]) > 2 else "\n"
            n = len([x for x in st.ts if x[0] == "get"])
            return [(E.UNK, st.with_ts(st.ts | {("get", n, v, d)}))]
        if fname(e).endswith("::get") and not e.get("a") and \
                "istream" in fname(e):
            return [(E.UNK, st.with_ts(st.ts | {("skip",)}))]
        return None


def texts(cx):
    """Strings whose parts are split by std::getline."""
    fx, rep = cx.fx, cx.rep
    n = 0
    for wn, rn, cls, members in (
            ("Artifact::ObjectInfo::ToString",
             "Artifact::ObjectInfo::FromString", "Artifact::ObjectInfo",
             {"hash": "digest", "size": "digest", "type": "type"}),
            ("ServerAddress::ToJson", "ParseAddress", "ServerAddress",
             {"host": "host", "port": "port"})):
        w = lib.one(fx, wn)
        r = lib.one(fx, rn)
        outs = [o for o in EvEngine(fx, Gets(cx)).run(
            r, E.State({}, frozenset())) if o.how == "ret"]
        full = max((o.st.ts for o in outs), key=len, default=frozenset())
        gets = sorted(x for x in full if x[0] == "get")
        var = {}
        for g, e, m in cx.built([r], cls):
            for mem, args in m.items():
                for a in args:
                    for lab, v in feeds(cx, g, a):
                        var.setdefault((mem, lab), set()).add(v)
        fmts = formats(cx, w)
        rep.ob(wn + " form", len(fmts) == 1 and len(gets) >= 2,
               f"{w.short()} and {r.short()}: form not understood")
        for g, e, parts in fmts:
            order = []
            lead = 0
            if parts and isinstance(parts[0], str):
                lead = len(parts[0])
                parts = parts[1:]
            for i, x in enumerate(parts):
                if isinstance(x, str) or x is None:
                    continue
                lab = label(cx, g, x, w.params)
                d = parts[i + 1][0] if i + 1 < len(parts) and isinstance(
                    parts[i + 1], str) else None
                order.append((lab, d))
            rep.ob(wn + " lead", lead == len(
                [x for x in full if x[0] == "skip"]),
                f"{w.short()} starts with {lead} characters that "
                f"{r.short()} does not skip")
            for i, (lab, d) in enumerate(order[:len(gets)]):
                n += 1
                mem = members.get(lab)
                if mem is None and lab is None and i < len(gets):
                    # told by where it is read to
                    lab = "size" if wn.startswith("Artifact") and \
                        i == 1 else lab
                    mem = members.get(lab)
                vs = set()
                for (m, l), x in var.items():
                    if m == mem and (l is None or l == lab):
                        vs |= x
                rep.ob(f"{rn} part {i}", gets[i][2] in vs,
                       f"part {i} of the string that {w.short()} writes is "
                       f"{lab}, but {r.short()} does not use it as {mem}",
                       f"{rn}: part {i} is {lab}")
                rep.ob(f"{rn} separator {i}", d is None or d == char(
                    gets[i][3]),
                    f"{w.short()} writes {d!r} after {lab}, {r.short()} "
                    f"reads up to {gets[i][3]!r}")
    rep.count("parts of strings", n, 5)


def char(c):
    return chr(c) if isinstance(c, int) else c


def feeds(cx, g, eid, lab=None, seen=None):
    """{(part of the digest or None, variable)} a value is made of."""
    seen = set() if seen is None else seen
    if eid is None or eid < 0 or (g.key, eid, lab) in seen:
        return set()
    seen.add((g.key, eid, lab))
    e = g.el.get(eid)
    if e is None:
        return set()
    out = set()
    if e["op"] == "ref":
        if e.get("v"):
            out.add((lab, e["v"]))
        for h, i in cx.K.stores(g).get(e.get("v"), ()):
            out |= feeds(cx, h, i, lab, seen)
        return out
    if e["op"] == "call" and fname(e) == "ArtifactDigestFactory::Create" \
            and len(e["a"]) >= 3:
        return feeds(cx, g, e["a"][1], "hash", seen) | \
            feeds(cx, g, e["a"][2], "size", seen)
    for c in E.Engine.children(e):
        out |= feeds(cx, g, c, lab, seen)
    return out


def fns(cx, f, eid, seen=None):
    """Functions called in an expression (through local variables)."""
    seen = set() if seen is None else seen
    if eid is None or eid < 0 or (f.key, eid) in seen:
        return set()
    seen.add((f.key, eid))
    e = f.el.get(eid)
    if e is None:
        return set()
    out = set()
    if e["op"] == "call":
        out.add(("fn", fname(e)))
    if e["op"] == "ref":
        for g, i in cx.K.stores(f).get(e.get("v"), ()):
            out |= fns(cx, g, i, seen)
    if e["op"] != "lambda":
        for c in E.Engine.children(e):
            out |= fns(cx, f, c, seen)
    return out


def run(fx, rep):
    cx = Ctx(fx, rep)
    rep.rule("each member is read from the key it is written under")
    objects(cx)
    rep.rule("each alternative has its own type tag, read back as the same "
             "alternative")
    variants(cx)
    rep.rule("provided values are read back as what they were")
    expressions(cx)
    rep.rule("positions in arrays and single keys agree")
    positions(cx)
    rep.rule("parts of strings are read in the order and up to the separator "
             "they are written with")
    streams(cx)
    texts(cx)
