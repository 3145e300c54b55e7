"""Comparisons, hashes and identifiers cover what they stand for.

Comparison operators are evaluated on two symbolic objects that agree in
everything but one member; hashes and identifiers are judged by the provenance
of what they are computed from and by the way the parts are framed."""
import re

import engine as E
import facts as F
import prov as PV

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "comparison of members of library types distinguishes different values",
    "different inputs of a cryptographic hash have different digests",
    "exceptional paths of comparison operators are not followed",
]

# Members that are not part of the identity, and why.
NOT_KEY = {
    "GitOpParams": {"message": "payload of the operation",
                    "source_path": "payload", "init_bare": "payload"},
    "RepoDescriptionForUpdating": {"inherit_env": "how it is fetched"},
    "CommitInfo": {"repo_type": "for messages", "content": "for messages"},
    "ArchiveContent": {"distfile": "where to look", "fetch_url": "where",
                       "mirrors": "where", "sha256": "check of the content",
                       "sha512": "check of the content",
                       "origin": "for messages"},
    "GitRepoInfo": {"repo_url": "where to look", "branch": "where",
                    "inherit_env": "how", "mirrors": "where",
                    "origin": "for messages"},
    "DistdirInfo": {"content_list": "determined by content_id",
                    "repos_to_fetch": "determined by content_id",
                    "origin": "for messages"},
    "GitTreeInfo": {"env_vars": "how it is generated", "inherit_env": "how",
                    "command": "how", "origin": "for messages"},
    "GitObjectToResolve": {"known_info": "determined by the key",
                           "source_cas": "where to look",
                           "target_cas": "where to store"},
    "ArtifactDigest": {"size_": "determined by the hash"},
    "HashInfo": {"hash_type_": "determined by the length of the hash"},
    "BackendDescription": {"description_": "its digest is compared"},
    "TargetResult": {"is_cacheable": "derived from the other members"},
    "TargetNode": {"is_cacheable_": "derived from the other members"},
    "ArtifactDescription": {"data_": "the identifier computed from it is "
                            "compared"},
    "ArtifactBlob": {"content_": "determined by the digest"},
    "Expression": {"hash_": "memo", "is_cachable_": "derived",
                   "data_": "compared by its hash"},
    "PrecomputedRoot": {"hash_": "derived from the root"},
    "NamedTarget": {},
}
# Values of these types that are compared as keys differ in this member.
DECIDES = {"HashInfo": "hash_"}
# Members of the operand of equality that are compared through a digest.
THROUGH = {"Expression"}
SKIP = re.compile(r"Iterator|^std::|^gsl::|^nlohmann|^LinkedMap|^fmt::")

INJ = {"Hash", "hash", "string", "Id", "ToHash", "Bytes", "HexString",
       "native", "get", "value", "operator*", "operator->", "data",
       "operator basic_string"}
INJF = {"std::tie", "std::make_tuple", "std::make_pair", "std::to_string",
        "std::forward_as_tuple", "std::get"}
OPAQUE = ("Expression::ToHash",)
CMP = ("==", "!=", "<", ">", "<=", ">=")


def core(t):
    t = t.replace("const ", "").strip()
    while t.endswith(("&", "*", " ")):
        t = t[:-1]
    return t


class Rel(E.Policy):
    """Two objects that differ exactly in the member D (none: in nothing)."""
    max_depth = 8

    def __init__(self, roots, diff, sign, apart=False):
        self.apart = apart      # equal content behind different pointers
        self.roots = roots      # {variable: 'x' or 'y'}
        self.diff = diff        # path of members, or None
        self.sign = sign        # x.D compared with y.D: NEG or POS
        self.seen = set()       # members that were compared
        self.busy = False
        self.crossed = set()    # comparisons of different members

    # ---- terms
    def term(self, eng, f, eid, st):
        v = eng.val(f, eid, st)
        if v.tag and v.tag[0] == "t":
            return v.tag[1]
        p = eng.path(f, eid, st)
        if p is not None:
            r, *c = p.split(".")
            if r in self.roots:
                return (self.roots[r],) + tuple(x for x in c if x != "*")
            for k in range(len(c), 0, -1):
                w = st.env.get(".".join([r] + c[:k - 1]))
                if w is not None and w.tag and w.tag[0] == "t" and \
                        w.tag[1][0] in ("x", "y"):
                    return w.tag[1] + tuple(x for x in c[k - 1:] if x != "*")
        e = f.el.get(eid)
        if e is not None:
            if e["op"] == "mem" and e.get("b") is not None and \
                    not e.get("isf"):
                b = self.term(eng, f, e["b"], st)
                if b is not None and b[0] in ("x", "y"):
                    return b + (e["m"],)
            if e["op"] in ("cast", "un") and e.get("a"):
                return self.term(eng, f, e["a"][0], st)
            if e["op"] == "ctor" and len(e.get("a", ())) == 1:
                return self.term(eng, f, e["a"][0], st)
        if v.c is not None and not isinstance(v.c, tuple):
            return ("k", v.c)
        return None

    def swap(self, t):
        if t[0] == "x":
            return ("y",) + t[1:]
        if t[0] == "y":
            return ("x",) + t[1:]
        if t[0] == "c":
            return ("c", t[1], tuple(self.swap(a) for a in t[2]))
        return t

    def fields(self, t):
        if t[0] in ("x", "y"):
            return {t[1:]}
        if t[0] == "c":
            r = set()
            for a in t[2]:
                r |= self.fields(a)
            return r
        return set()

    def relate(self, l, r):
        """'eq', ('ne', sign of l relative to r), or None"""
        if l == r:
            self.crossed.add((l, r))
            return "eq"
        if self.swap(l) != r:
            self.crossed.add((l, r))
            return None
        for c in self.fields(l):
            self.seen.add(c)
        return self.mirrored(l)

    def mirrored(self, l):
        d = self.diff
        if l[0] in ("x", "y"):
            c = l[1:]
            if d is None:
                return "eq"
            if d[:len(c)] == c:
                s = self.sign
                if l[0] == "y":
                    s = E.POS if s == E.NEG else E.NEG
                return ("ne", s)
            if c[:len(d)] == d:
                return None
            return "eq"
        if l[0] == "c":
            rs = [self.mirrored(a) for a in l[2]]
            if all(x == "eq" for x in rs):
                return "eq"
            n = l[1].rsplit("::", 1)[-1]
            if l[1] in INJF or n in INJ:
                for x in rs:
                    if x != "eq":
                        return x
            return None
        return "eq"

    @staticmethod
    def truth(k, rel):
        if rel is None:
            return E.UNK
        s = E.ZERO if rel == "eq" else rel[1]
        return E.const({"==": s == E.ZERO, "!=": s != E.ZERO,
                        "<": s == E.NEG, ">": s == E.POS,
                        "<=": s != E.POS, ">=": s != E.NEG}[k])

    # ---- hooks
    def compare_at(self, eng, f, k, l, r, st):
        tl, tr = self.term(eng, f, l, st), self.term(eng, f, r, st)
        if tl is None or tr is None:
            return None
        if not self.fields(tl) or not self.fields(tr):
            return None
        return self.truth(k, self.relate(tl, tr))

    def inline(self, eng, f, e, g, st, depth):
        return g.q.rsplit("::", 1)[-1] not in ("ToHash",) and \
            not g.q.startswith("Logger::")

    def call(self, eng, f, e, st, depth):
        fn = e.get("fn", "")
        n = fn.rsplit("::", 1)[-1]
        args = e.get("a", [])
        o = e.get("o")
        k = e.get("opk")
        ops = ([o] if o is not None else []) + list(args)
        if e["op"] == "ctor":
            if len(args) == 1:
                t = self.term(eng, f, args[0], st)
                if t is not None and t[0] in ("x", "y", "c"):
                    return [(E.AV(E.TOP, None, ("t", t)), st)]
            return None
        if k in CMP and len(ops) == 2:
            ts = [core(f.t(eng.src(f, a) or {})) for a in ops]
            for i in (0, 1):
                if re.match(r"std::(strong|weak|partial)_ordering", ts[i]):
                    v = eng.val(f, ops[i], st)
                    kk = k if i == 0 else {"<": ">", ">": "<", "<=": ">=",
                                           ">=": "<="}.get(k, k)
                    return [(eng.compare(kk, v, E.const(0)), st)]
        cmpk = k in CMP or k == "<=>" or n in (
            "operator==", "operator!=", "operator<", "operator<=>",
            "compare", "equal_to", "strcmp")
        if not cmpk and n == "operator()" and "equal_to" in fn:
            cmpk, k, ops = True, "==", args
        if cmpk and len(ops) == 2:
            tl = self.term(eng, f, ops[0], st)
            tr = self.term(eng, f, ops[1], st)
            if tl is not None and tr is not None and (
                    len(tl) > 1 or len(tr) > 1) and (
                        self.fields(tl) and self.fields(tr)):
                rel = self.relate(tl, tr)
                if k in CMP:
                    v = self.truth(k, rel)
                    # the same pointer is not needed for equality
                    if k in ("==", "!=") and "_ptr<" in f.t(
                            eng.src(f, ops[0]) or {}) and rel == "eq" and \
                            self.apart:
                        v = E.const(k == "!=")
                    return [(v, st)]
                s = E.UNK if rel is None else E.AV(
                    E.ZERO if rel == "eq" else rel[1])
                return [(s, st)]
            return None
        if fn in E.PASS:
            return None
        if n in ("operator->", "operator*") and not args and o is not None:
            t = self.term(eng, f, o, st)
            if t is not None and t[0] in ("x", "y", "c"):
                return [(E.AV(E.TOP, None, ("t", t)), st)]
        # accessors of library types and functions of terms
        if e.get("fk") and eng.fx.has(e["fk"]) and n != "ToHash" and \
                eng.fx.func(e["fk"]).blocks:
            return None
        if n == "operator bool" and self.apart and o is not None and \
                self.term(eng, f, o, st) is not None:
            return [(E.TRUE, st)]
        if E.is_deref_call(e):
            t = self.term(eng, f, o, st)
            if t is not None and t[0] in ("x", "y", "c"):
                return [(E.AV(E.TOP, None, ("t", t)), st)]
            return None
        ts = [self.term(eng, f, a, st) for a in ops]
        if ops and all(t is not None for t in ts) and any(
                self.fields(t) for t in ts):
            if fn.startswith("std::get") and len(ops) == 1 and \
                    ts[0][0] in ("x", "y"):
                if self.alternative(ts[0], core(f.t(e))) is False:
                    return []
                return [(E.AV(E.TOP, None, ("t", ts[0] + (
                    "get:" + core(f.t(e)),))), st)]
            if fn.startswith("std::holds_alternative") and \
                    ts[0][0] in ("x", "y"):
                m = self.alternative_of(ts[0])
                if m is not None:
                    want = targ_type(f, e)
                    if want is not None:
                        return [(E.const(want == m), st)]
            if n == "index" and ts[0][0] in ("x", "y") and \
                    self.alternative_of(ts[0]) is not None:
                return [(E.AV(E.TOP, None, ("t", ("k", "index"))), st)]
            return [(E.AV(E.TOP, None, ("t", ("c", F.plain(fn),
                                              tuple(ts)))), st)]
        return None

    def alternative_of(self, t):
        """The alternative a variant member holds in this experiment."""
        d = self.diff
        c = t[1:]
        if d is not None and len(d) > len(c) and d[:len(c)] == c and \
                d[len(c)].startswith("get:"):
            return d[len(c)][4:]
        return None

    def alternative(self, t, ty):
        m = self.alternative_of(t)
        return None if m is None else m == ty

    def elem(self, eng, f, e, st):
        return None


class RelEngine(E.Engine):

    def val(self, f, eid, st):
        v = super().val(f, eid, st)
        d = self.p.diff
        if d is None or v.known():
            return v
        e = self.src(f, eid)
        if e is None or core(f.t(e)) != "bool" or e["op"] != "mem" or \
                self.p.busy:
            return v
        self.p.busy = True
        t = self.p.term(self, f, e["i"], st)
        self.p.busy = False
        if t is not None and t[0] in ("x", "y") and t[1:] == d:
            return E.const((t[0] == "x") == (self.p.sign == E.POS))
        return v

    def step(self, f, e, st, depth):
        if e["op"] == "bin" and e["k"] in CMP:
            v = self.p.compare_at(self, f, e["k"], e["a"][0], e["a"][1], st)
            if v is not None:
                if "*" in f.t(self.src(f, e["a"][0]) or {}) and v.known() \
                        and self.p.apart and e["k"] in ("==", "!="):
                    v = E.const(e["k"] == "!=")
                return [st.set(e["i"], v)]
            t = [self.p.term(self, f, a, st) for a in e["a"]]
            if ("k", "index") in t and t[0] == t[1]:
                return [st.set(e["i"], E.const(e["k"] in ("==", "<=",
                                                          ">=")))]
            tt = [core(f.t(self.src(f, a) or {})) for a in e["a"]]
            for i in (0, 1):
                if re.match(r"std::(strong|weak|partial)_ordering", tt[i]):
                    v = self.val(f, e["a"][i], st)
                    kk = e["k"] if i == 0 else {
                        "<": ">", ">": "<", "<=": ">=",
                        ">=": "<="}.get(e["k"], e["k"])
                    return [st.set(e["i"], self.compare(kk, v, E.const(0)))]
        if e["op"] == "bin" and e["k"] == "<=>":
            tl = self.p.term(self, f, e["a"][0], st)
            tr = self.p.term(self, f, e["a"][1], st)
            if tl and tr and self.p.fields(tl) and self.p.fields(tr):
                rel = self.p.relate(tl, tr)
                if rel is not None:
                    return [st.set(e["i"], E.AV(
                        E.ZERO if rel == "eq" else rel[1]))]
            return [st]
        return super().step(f, e, st, depth)


def targ_type(f, e):
    """The alternative asked for by std::holds_alternative."""
    return core(e["ta"]) if e.get("ta") else None


def outcome(fx, g, roots, diff, sign=E.NEG, apart=False):
    pol = Rel(roots, diff, sign, apart)
    eng = RelEngine(fx, pol)
    env = {}
    for p, s in roots.items():
        env[p] = E.AV(E.POS)
    outs = eng.run(g, E.State({}, frozenset()))
    r = set()
    for o in outs:
        if o.how != "ret":
            continue
        if o.val.s == E.ZERO:
            r.add(False)
        elif not o.val.s & E.ZERO:
            r.add(True)
        else:
            r.add(None)
    return r, pol.crossed


def record_of(fx, t):
    t = core(t)
    return fx.records.get(t) or fx.records.get(F.plain(t))


def short(name):
    return name.rsplit("::", 1)[-1]


def operands(fx, g):
    """(class, {variable: side}) of a comparison of two objects of a class"""
    if g.cls and not g.d.get("friend") and len(g.params) == 1:
        t = core(g.params[0][2])
        if t != g.cls and short(t) != short(g.cls):
            return None, None
        return t, {"this": "x", g.params[0][0]: "y"}
    if len(g.params) == 2 and core(g.params[0][2]) == core(g.params[1][2]):
        return core(g.params[0][2]), {g.params[0][0]: "x",
                                      g.params[1][0]: "y"}
    return None, None


def diffs(fx, cls, rec):
    """Ways in which two objects can differ in one member."""
    out = []
    for fd in rec["fields"]:
        n, ty = fd["n"], core(fd.get("ty") or "")
        skip = NOT_KEY.get(short(cls), {})
        if n in skip:
            continue
        m = re.match(r"std::variant<(.*)>$", ty)
        parts = None
        if m:
            alts = split_args(m.group(1))
            parts = []
            for a in alts:
                r = fx.records.get(a)
                if r is not None and r["fields"] and a.startswith(
                        cls + "::"):
                    parts += [(n, "get:" + a, x["n"]) for x in r["fields"]]
                else:
                    parts.append((n, "get:" + a))
        if parts is None and short(ty) in DECIDES:
            parts = [(n, DECIDES[short(ty)])]
        out += parts or [(n,)]
    return out


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += c in "<(" 
        d -= c in ">)"
        cur += c
    out.append(cur.strip())
    return out


def name_of(d):
    return ".".join(x.replace("get:", "") for x in d)


def run(fx, rep):
    P = PV.Prov(fx, opaque=OPAQUE)
    eqs = equality(fx, rep, P)
    hashes(fx, rep, P, eqs)
    identifiers(fx, rep, P)
    hashers(fx, rep, P)
    cache_places(fx, rep, P)
    memo_reset(fx, rep)


def equality(fx, rep, P):
    rep.rule("operator== of two objects that differ in one member that is "
             "part of the identity is false; of equal objects it is true; "
             "operator!= is its negation; operator< tells them apart, in "
             "opposite directions when they are swapped, and is false on "
             "equal objects")
    done = {}
    n = {"==": 0, "!=": 0, "<": 0}
    fields = 0
    for k in sorted(fx.keys()):
        g = fx.func(k)
        op = g.q.rsplit("::", 1)[-1]
        if op not in ("operator==", "operator!=", "operator<") or \
                not g.blocks:
            continue
        cls, roots = operands(fx, g)
        if cls is None or SKIP.search(cls):
            continue
        rec = record_of(fx, cls)
        if rec is None:
            continue
        op = op[8:]
        key = (cls, op)
        if key in done:
            continue
        done[key] = g
        n[op] += 1
        ds = diffs(fx, cls, rec)
        through = short(cls) in THROUGH
        same, crossed = outcome(fx, g, roots, None)
        same2, crossed2 = outcome(fx, g, roots, None, apart=True)
        same |= same2
        crossed |= crossed2
        want = op == "=="
        base = f"{short(cls)}::operator{op}"
        if not through:
            rep.ob(f"same:{cls}:{op}", (not want) not in same,
                   f"{g.loc()}: {base} of two equal objects can be "
                   f"{str(not want).lower()}")
            rep.ob(f"mirror:{cls}:{op}", not crossed,
                   f"{g.loc()}: {base} compares " + " with ".join(
                       name_of(t[1:]) if t[0] in ("x", "y") else str(t[1])
                       for t in sorted(crossed)[0]) + " of "
                   "the same object or of different members"
                   if crossed else "")
        src = None
        for d in ds:
            fields += 1
            if op == "<":
                a, _ = outcome(fx, g, roots, d, E.NEG)
                b, _ = outcome(fx, g, roots, d, E.POS)
                undecided = None in a or None in b
                ok = (a == {True} and b == {False}) or (
                    a == {False} and b == {True}) if not undecided else None
            else:
                a, _ = outcome(fx, g, roots, d)
                b, _ = outcome(fx, g, roots, d, E.POS)
                a = a | b
                ok = None if None in a and want not in a else want not in a
            if ok is None:
                # not decided by evaluation: the member must at least matter
                if src is None:
                    src = P.returns(g)
                # on both sides
                ok = len({x[:3] if x[0] == "p" else x[:1] for x in src
                          if x[0] in ("this", "p") and x[-1] and
                          d[0] in x[-1][:1]}) == 2
            rep.ob(f"member:{cls}:{op}:{name_of(d)}", ok,
                   f"{g.loc()}: {base} does not tell apart objects that "
                   f"differ in {name_of(d)} only",
                   sample=f"{base} over {name_of(d)}")
    rep.count("operator==", n["=="], 35)
    rep.count("operator!=", n["!="], 2)
    rep.count("operator<", n["<"], 5)
    rep.count("members compared", fields, 80)
    return done


def key_fields(fx, cls):
    rec = record_of(fx, cls)
    skip = NOT_KEY.get(short(cls), {})
    return {f["n"] for f in rec["fields"]} - set(skip), set(skip)


DERIVED_OK = {("PrecomputedRoot", "hash_"), ("Expression", "hash_"),
              ("Expression", "data_")}


def hashes(fx, rep, P, eqs):
    rep.rule("std::hash of an object reads only members that its operator== "
             "compares, and no address")
    n = 0
    for k in sorted(fx.keys()):
        g = fx.func(k)
        if not re.match(r"std::hash(<|::)", g.q) or \
                not g.q.endswith("operator()") or len(g.params) != 1:
            continue
        cls = core(g.params[0][2])
        rec = record_of(fx, cls)
        if rec is None or SKIP.search(cls):
            continue
        n += 1
        keys, skip = key_fields(fx, cls)
        atoms = P.returns(g)
        used = {a[3][0] for a in atoms if a[0] == "p" and a[1] == g.key and
                a[3]}
        names = {f["n"] for f in rec["fields"]}
        for u in sorted(used & names):
            ok = u in keys or (short(cls), u) in DERIVED_OK
            rep.ob(f"hash:{cls}:{u}", ok,
                   f"{g.loc()}: the hash of {cls} depends on {u}, which its "
                   "operator== does not compare: equal objects would have "
                   "different hashes", sample=f"std::hash<{cls}>: {u}")
        for h in P.nest(g):
            for e in h.elems():
                if e["op"] != "call":
                    continue
                fn = e.get("fn", "")
                if re.match(r"std::hash(<|::).*(\*|_ptr<)", fn) and \
                        fn.endswith("operator()") and not fx.has(
                            e.get("fk") or ""):
                    rep.ob(f"hash:{cls}:address", False,
                           f"{h.loc(e)}: the hash of {cls} is computed from "
                           "an address")
                if fn.endswith("hash_combine") and len(e["a"]) == 2:
                    t = core(h.t(h.el.get(e["a"][1], {})))
                    rep.ob(f"hash:{cls}:address", not (
                        h.t(h.el.get(e["a"][1], {})).endswith("*") or
                        "shared_ptr<" in t), f"{h.loc(e)}: the hash of {cls} "
                        "is computed from an address")
    rep.count("std::hash specializations", n, 25)


# ---- identifiers ----------------------------------------------------------
# (function, what it identifies, sources that must all reach the result).
# A source is a parameter position with a path of members, or a path of
# members of the object; alternatives are separated by '|'.
IDS = [
    ("Tree::ComputeId", "a tree", ["0#0|0first", "0#1|0second"]),
    ("Tree::ComputeDescription", "a tree", ["0#0|0first", "0#1|0second"]),
    ("TreeOverlay::ComputeId", "a tree overlay", ["0", "1"]),
    ("TreeOverlay::ComputeDescription", "a tree overlay", ["0", "1"]),
    ("RepositoryConfig::RepositoryInfo::BaseContentDescription",
     "the content of a repository",
     ["this.workspace_root", "this.target_root", "this.rule_root",
      "this.expression_root", "this.target_file_name",
      "this.rule_file_name", "this.expression_file_name"]),
    ("FileRoot::ContentDescription", "the content of a root",
     ["this.root_", "this.ignore_special_"]),
    ("TargetCache::ComputeKey", "a cached target",
     ["0", "1.module", "1.name", "2"]),
    ("Expression::ComputeHash", "an expression", ["this.data_"]),
    ("ArtifactDescription::ComputeId", "an artifact", ["0"]),
    ("BackendDescription::Describe", "a remote-execution backend",
     ["0.host", "0.port", "1", "2#0|2first", "2#1.host|2second.host",
      "2#1.port|2second.port"]),
    ("PrecomputedRoot::ComputeHash", "a precomputed root", ["0"]),
    ("StorageUtils::GetCommitTreeIDFile", "the tree of a commit", ["1"]),
    ("StorageUtils::GetArchiveTreeIDFile", "the tree of an archive",
     ["1", "2"]),
    ("StorageUtils::GetForeignFileTreeIDFile", "the tree of a foreign file",
     ["1", "2", "3"]),
    ("StorageUtils::GetDistdirTreeIDFile", "the tree of a distdir", ["1"]),
    ("StorageUtils::GetResolvedTreeIDFile", "a resolved tree", ["1", "2"]),
    ("StorageUtils::GetRehashIDFile", "a rehashed object",
     ["1", "2", "3"]),
    ("StorageUtils::GetValidTreesMarkerFile", "a validated tree", ["1"]),
]

# Every result must depend on all parts.
EACH = ("FileRoot::ContentDescription",)


def covers(atoms, g, want):
    for alt in want.split("|"):
        m = re.match(r"(this|\d+)(.*)$", alt)
        root, path = m.group(1), tuple(x for x in re.split(
            r"\.|(?=#)", m.group(2)) if x)
        for a in atoms:
            if root == "this" and a[0] == "this":
                p = a[1]
            elif a[0] == "p" and root.isdigit() and a[1] == g.key and \
                    a[2] == int(root):
                p = a[3]
            else:
                continue
            if p[:len(path)] == path:
                return True
    return False


def each(fx, name):
    return [g for g in fx.named(name) if g.blocks]


def all_returns(P, g):
    """Sources per return statement that yields something."""
    out = []
    for e in g.elems():
        if e["op"] == "ret" and e.get("a"):
            s = set()
            P._of(g, e["a"][0], (), 0, set(), s)
            if any(a[0] in ("p", "this") for a in s):
                out.append((e, s))
    return out


def identifiers(fx, rep, P):
    rep.rule("every part of what an identifier stands for (key of the target "
             "cache, description of a repository, identifier of a tree, "
             "action or artifact, place of a cached result) reaches the "
             "identifier")
    n = 0
    for name, what, wants in IDS:
        gs = each(fx, name) or [
            g for g in fx.grep(name.rsplit("::", 1)[-1]) if
            F.plain(g.q) == name and g.blocks]
        if not gs:
            if name.startswith("TargetCache::"):
                rep.note(name + " is not compiled here")
                continue
            raise F.AnalysisError("anchor vanished: function " + name)
        g = gs[0]
        atoms = P.returns(g)
        for w in wants:
            n += 1
            p = w.split("|")[0]
            m = re.match(r"(\d+)(.*)", p)
            label = p if m is None else g.params[int(m.group(1))][1] + \
                m.group(2)
            rep.ob(f"id:{name}:{p}", covers(atoms, g, w),
                   f"{g.loc()}: {name}, which identifies {what}, does not "
                   f"depend on {label}",
                   sample=f"{name} depends on {label}")
        if name in EACH:
            for e, a in all_returns(P, g):
                for w in wants:
                    n += 1
                    rep.ob(f"id:{name}:{w}:each", covers(a, g, w),
                           f"{g.loc(e)}: what {name} returns here does not "
                           f"depend on {w}")
    n += artifact(fx, rep, P)
    n += action(fx, rep, P)
    n += repo_graph(fx, rep, P)
    n += precomputed(fx, rep, P)
    n += typed_json(fx, rep, P)
    rep.count("parts of identifiers", n, 60)


ARTIFACT = {"LOCAL": ["#0", "#1"], "KNOWN": ["#0.hash_info_", "#0.size_",
                                             "#1"],
            "ACTION": ["#0", "#1"], "TREE": ["tree"],
            "TREE_OVERLAY": ["tree_overlay"]}


def artifact(fx, rep, P):
    gs = each(fx, "ArtifactDescription::ToJson")
    if not gs:
        raise F.AnalysisError("anchor vanished: ArtifactDescription::ToJson")
    g = gs[0]
    n = 0
    rets = all_returns(P, g)
    alt = {"#0": {"#0", "first"}, "#1": {"#1", "second"}}
    for tag, wants in ARTIFACT.items():
        rs = [s for _, s in rets if ("lit", tag) in s]
        rep.ob(f"id:ArtifactDescription:{tag}", bool(rs),
               f"{g.loc()}: artifacts of type {tag} are not described")
        for w in wants:
            n += 1
            parts = w.split(".")
            ok = bool(rs) and all(any(
                a[0] == "this" and a[1][:1] == ("data_",) and all(
                    i + 1 < len(a[1]) and a[1][i + 1] in alt.get(x, {x})
                    for i, x in enumerate(parts)) for a in s) for s in rs)
            rep.ob(f"id:ArtifactDescription:{tag}:{w}", ok,
                   f"{g.loc()}: the description of {tag} artifacts, from "
                   f"which their identifier is computed, lacks component {w}",
                   sample=f"ArtifactDescription {tag}: {w}")
    # the identifier is computed from the description
    made = 0
    for k in sorted(fx.keys()):
        if "ArtifactDescription" not in k:
            continue
        c = fx.func(k)
        if F.plain(c.q) != "ArtifactDescription::ArtifactDescription" or \
                not c.blocks or len(c.params) != 1 or "ArtifactDescription" \
                == core(c.params[0][2]):
            continue
        for e in c.elems():
            if e["op"] in ("init", "asg") and member_of(e, c) == "id_":
                made += 1
                s = P.of(c, e["a"][-1])
                rep.ob("id:ArtifactDescription:id_", any(
                    a[0] == "this" or a[0] == "p" for a in s),
                    f"{c.loc()}: the identifier of an artifact is not "
                    "computed from its description")
    rep.counts["constructors of artifact descriptions"] = made
    return n


def member_of(e, c):
    if e["op"] == "init":
        return e.get("m")
    t = c.el.get(e["a"][0], {})
    return t.get("m")


def action(fx, rep, P):
    name = "BuildMaps::Target::Utils::createAction"
    gs = each(fx, name)
    if not gs:
        raise F.AnalysisError("anchor vanished: function " + name)
    g = gs[0]
    n = 0
    ids = []
    for e in g.elems():
        if e["op"] == "ctor" and e.get("fn") == "Action::Action" and \
                len(e["a"]) > 3:
            ids.append(e)
    for e in g.elems():
        if e["op"] == "call" and e.get("fn") in (
                "std::make_shared", "std::make_unique") and \
                "ActionDescription" in g.t(e) and not ids:
            ids.append(e)
    if not ids:
        raise F.AnalysisError("createAction does not make an Action")
    for e in ids:
        s = P.of(g, e["a"][0])
        for j, p in enumerate(g.params):
            n += 1
            rep.ob(f"id:createAction:{p[1]}", any(
                a[0] == "p" and a[2] == j for a in s),
                f"{g.loc(e)}: the identifier of an action does not depend on "
                f"its {p[1]}: different actions would be taken for the same",
                sample=f"createAction id depends on {p[1]}")
        rep.ob("id:createAction:tag", any(
            a[0] == "lit" and isinstance(a[1], str) and "ACTION" in a[1] and
            a[1] not in ("ACTION",) for a in s),
            f"{g.loc(e)}: the identifier of an action is not tagged")
    return n


def repo_graph(fx, rep, P):
    n = 0
    name = "RepositoryConfig::AddToGraphAndGetId"
    gs = each(fx, name)
    if not gs:
        raise F.AnalysisError("anchor vanished: function " + name)
    g = gs[0]
    fr = P.frame(g)
    # what is stored into the graph
    gp = g.params[0][0]
    s = set()
    for h, i in fr.get(gp, ()):
        s |= P.of(h, i)
    paths = {a[1] for a in s if a[0] == "this"} | {
        a[3] for a in s if a[0] == "p"}

    def has(*names):
        return any(all(x in p for x in names) for p in paths)
    for what, ok in (
            ("base_desc", has("base_desc")),
            ("the bindings", has("name_mapping"))):
        n += 1
        rep.ob(f"id:{name}:{what}", ok,
               f"{g.loc()}: the description of a repository in the graph "
               f"its key is computed from lacks {what}",
               sample=f"{name}: {what}")
    # both sides of a binding
    Q = PV.Prov(fx, opaque=OPAQUE + (
        name, "RepositoryConfig::DeduplicateRepo"))

    def sides(h, ids):
        a = set()
        for x in ids:
            a |= Q.of(h, x)
        ps = [x[-1] for x in a if x[0] in ("this", "p") and
              "name_mapping" in x[-1]]
        r = set()
        for p in ps:
            q = p[p.index("name_mapping") + 1:][:1]
            r |= {0} if q in (("#0",), ("first",)) else {1} if q in (
                ("#1",), ("second",)) else set()
        if ("fn", name) in a:
            r.add("id")
        return r
    keyed, bound, rec = [], [], []
    for h in P.nest(g):
        for e in h.elems():
            if e["op"] != "call":
                continue
            fn, a = e.get("fn", ""), e.get("a") or ()
            if fn == name:
                rec.append((h, e, sides(h, a)))
            elif not a:
                continue
            elif short(fn) in ("operator[]", "emplace", "insert", "update",
                               "insert_or_assign", "push_back",
                               "emplace_back", "try_emplace"):
                r = sides(h, a[:1] if len(a) > 1 or short(fn) in (
                    "operator[]",) else a)
                if r & {0, 1}:
                    keyed.append((h, e, r, len(a) > 1 or short(fn) ==
                                  "operator[]"))
    rep.ob(f"id:{name}:recursion", bool(rec) and all(
        1 in r for _, _, r in rec),
        f"{g.loc()}: the repositories bound are not added to the graph")
    rep.ob(f"id:{name}:names", bool(keyed) and all(
        0 in r and (not only or not r & {1, "id"})
        for _, _, r, only in keyed),
        f"{(keyed[0][0].loc(keyed[0][1]) if keyed else g.loc())}: the "
        "bindings in the description of a repository are not keyed by their "
        "local names")
    n += 2
    # deduplication
    d = each(fx, "RepositoryConfig::DeduplicateRepo")
    if not d:
        raise F.AnalysisError("anchor vanished: DeduplicateRepo")
    adds = [(h, e) for h in P.nest(d[0]) for e in h.elems()
            if e["op"] == "call" and e.get("fn") == "DFAMinimizer::AddState"]
    if not adds:
        raise F.AnalysisError("DeduplicateRepo adds no states")
    for h, e in adds:
        for j, what in ((1, "name_mapping"), (2, "base_desc")):
            n += 1
            a = P.of(h, e["a"][j])
            rep.ob(f"id:DeduplicateRepo:{what}", any(
                x[0] in ("this", "p") and what in x[-1] for x in a),
                f"{h.loc(e)}: repositories are taken for the same without "
                f"regard to {what}", sample=f"DeduplicateRepo: {what}")
    # the key
    k = each(fx, "RepositoryConfig::RepositoryKey")
    if k:
        n += 1
        s = set()
        for h in P.nest(k[0]):
            for e in h.elems():
                if e["op"] == "call" and short(e.get("fn", "")).startswith(
                        "StoreBlob"):
                    for a in e["a"]:
                        s |= P.of(h, a)
        rep.ob("id:RepositoryKey", any(
            x[0] in ("this",) and "base_desc" in x[-1] for x in s) or any(
                x == ("fn", "RepositoryConfig::BuildGraphForRepository")
                for x in s), f"{k[0].loc()}: the key of a repository is not "
            "computed from the graph of its dependencies")
    return n


def precomputed(fx, rep, P):
    n = 0
    tags = {}
    for cls in ("ComputedRoot", "TreeStructureRoot"):
        gs = each(fx, cls + "::ComputeHash")
        if not gs:
            continue
        s = P.returns(gs[0])
        lits = {a[1] for a in s if a[0] == "g" or a[0] == "lit" and
                isinstance(a[1], str)}
        for t, other in tags.items():
            n += 1
            rep.ob(f"id:{cls}:tag", lits != other,
                   f"{gs[0].loc()}: hashes of {t} and {cls} are not told "
                   "apart by a marker")
        tags[cls] = lits
    return n


def typed_json(fx, rep, P):
    """Descriptions that the hash of an expression is computed from."""
    n = 0
    for name, wants in (
            ("TargetResult::ToJson", ["this.artifact_stage", "this.provides",
                                      "this.runfiles"]),
            ("TargetNode::ToJson", ["this.data_"]),
            ("BuildMaps::Base::EntityName::ToJson",
             ["this.entity_name_.repository", "this.entity_name_.module",
              "this.entity_name_.name", "this.entity_name_.reference_t",
              "this.entity_name_.rule_map",
              "this.entity_name_.target_node"])):
        gs = each(fx, name)
        if not gs:
            raise F.AnalysisError("anchor vanished: function " + name)
        g = gs[0]
        atoms = P.returns(g)
        for w in wants:
            n += 1
            rep.ob(f"id:{name}:{w}", covers(atoms, g, w),
                   f"{g.loc()}: {name}, which enters the hash of "
                   f"expressions, does not depend on {w[5:]}",
                   sample=f"{name} depends on {w[5:]}")
    gs = each(fx, "Expression::ComputeHash")
    g = gs[0]
    s = P.returns(g)
    lits = {a[1] for a in s if a[0] == "lit"}
    for t in ("@", "=", "#", "$", "[", "{"):
        n += 1
        ok = t in lits or ord(t) in lits
        rep.ob(f"id:Expression::ComputeHash:{t}", ok,
               f"{g.loc()}: the type marker {t} does not enter the hash of "
               "expressions: values of different type could be taken for "
               "the same")
    return n


# ---- framing --------------------------------------------------------------
FIXED = {"Bytes", "ToHash", "HexString", "Hash", "hash"}
HASHERS = ("BuildMaps::Target::Utils::createAction", "Expression::ComputeHash")


def hashers(fx, rep, P):
    rep.rule("every part that is fed to the hash of an action or expression "
             "is fed on every path and has a fixed length, so that different "
             "sequences of parts cannot run together")
    n = m = 0
    todo = []
    for name in HASHERS:
        gs = each(fx, name)
        if not gs:
            raise F.AnalysisError("anchor vanished: function " + name)
        todo.append((gs[0], True))
    seen = set()
    while todo:
        g, top = todo.pop()
        if g.key in seen:
            continue
        seen.add(g.key)
        ups = []
        for e in g.elems():
            if e["op"] == "call" and e.get("fn") == "Hasher::Update":
                ups.append(e)
        if not ups:
            continue
        lens = {}
        for e in ups:
            n += 1
            ok, why = fixed(fx, g, e["a"][0], todo)
            rep.ob(f"frame:{F.plain(g.q)}", ok,
                   f"{g.loc(e)}: {why} of variable length is fed to the "
                   "hash next to other parts",
                   sample=f"{g.loc(e)} fixed length")
        for e in g.elems():
            if e["op"] == "call" and e.get("fk") and fx.has(e["fk"]):
                h = fx.func(e["fk"])
                if h.file == g.file and any(
                        x["op"] == "call" and x.get("fn") == "Hasher::Update"
                        for x in h.elems()):
                    todo.append((h, False))
        if not top:
            continue
        # on every path that ends in the digest
        fin = {e["B"] for e in g.elems() if e["op"] == "call" and
               e.get("fn") == "Hasher::Finalize"}
        if F.plain(g.q).endswith("createAction"):
            for j, p in enumerate(g.params):
                blocks = set()
                for e in ups:
                    if any(a[0] == "p" and a[2] == j
                           for a in P.of(g, e["a"][0])):
                        blocks.add(e["B"])
                m += 1
                rep.ob(f"path:createAction:{p[1]}",
                       not reaches(g, fin, blocks),
                       f"{g.loc()}: there is a path on which {p[1]} does not "
                       "enter the identifier of an action")
    rep.count("parts fed to hashes", n, 14)
    rep.count("parts on every path", m, 10)


def reaches(g, goals, cut):
    """Whether a goal block can be reached from the entry around the cut."""
    todo, seen = [g.entry], set()
    while todo:
        b = todo.pop()
        if b in seen or b in cut or b not in g.blocks:
            continue
        seen.add(b)
        if b in goals:
            return True
        ss = [s for s in g.blocks[b]["s"] if s is not None and s >= 0]
        if len(ss) > 1 and g.blocks[b].get("t") is None:
            ss = ss[:1]         # not the way of an exception
        todo.extend(ss)
    return False


def lit_len(v):
    return len(v) if isinstance(v, str) else 1


def fixed(fx, g, eid, todo, depth=0):
    e = g.el.get(eid)
    n = 0
    while e is not None and n < 30:
        n += 1
        if e["op"] in ("cast",) or (e["op"] == "ctor" and len(
                e.get("a", ())) >= 1 and g.t(e).replace(
                    "const ", "").startswith("std::basic_string")):
            e = g.el.get(e["a"][0])
        elif e["op"] == "call" and e.get("fn") in E.PASS:
            e = g.el.get(e["a"][0])
        else:
            break
    if e is None:
        return True, ""
    if e["op"] in ("str", "chr", "int"):
        return True, ""
    if e["op"] == "list" and not e.get("a"):
        return True, ""
    if e["op"] == "sel":
        ls = []
        for a in e["a"][1:]:
            ok, why = fixed(fx, g, a, todo, depth)
            if not ok:
                return ok, why
            x = literal(g, a)
            if x is not None:
                ls.append(lit_len(x))
        return len(set(ls)) <= 1, "a choice of texts"
    if e["op"] == "ref" and e.get("k") == "l" and depth < 6:
        vals = []
        for x in g.elems():
            if x["op"] == "decl":
                for d in x["d"]:
                    if d["v"] == e["v"] and d.get("i") is not None:
                        vals.append(d["i"])
            elif x["op"] == "asg" and g.el.get(x["a"][0], {}).get(
                    "v") == e["v"]:
                vals.append(x["a"][1])
            elif x["op"] == "call" and x.get("opk") == "=" and \
                    x.get("o") is not None and g.el.get(
                        x["o"], {}).get("v") == e["v"]:
                vals.append(x["a"][0])
        ls = []
        for a in vals:
            ok, why = fixed(fx, g, a, todo, depth + 1)
            if not ok:
                return ok, why
            x = literal(g, a)
            if x:
                ls.append(lit_len(x))
        if not vals:
            return False, "a value"
        return len(set(ls)) <= 1, "a choice of texts"
    if e["op"] == "call":
        nm = short(e.get("fn", ""))
        if nm in FIXED:
            return True, ""
        if nm == "format":
            spec = literal(g, e["a"][0])
            if isinstance(spec, str):
                rest = re.sub(r"\{[^{}]*\}", "", spec)
                ok = all(re.search(r":[^{}]*[1-9]\d*", s) or re.fullmatch(
                    r"\{:a\}", s) for s in re.findall(r"\{[^{}]*\}", spec))
                return ok, "formatted text"
            return True, ""
        if e.get("fk") and fx.has(e["fk"]) and depth < 4:
            h = fx.func(e["fk"])
            rets = [x for x in h.elems() if x["op"] == "ret" and x.get("a")]
            if rets and h.blocks:
                for x in rets:
                    ok, why = fixed(fx, h, x["a"][0], todo, depth + 1)
                    if not ok:
                        return ok, why
                return True, ""
    if e["op"] == "mem" and short(e.get("v", "")) in ("hash_",):
        return True, ""
    return False, "text"


def literal(g, eid):
    n = 0
    e = g.el.get(eid)
    while e is not None and n < 20:
        n += 1
        if e["op"] in ("str", "chr"):
            return e.get("val")
        if e["op"] in ("cast", "ctor") and e.get("a"):
            e = g.el.get(e["a"][0])
        elif e["op"] == "call" and e.get("fn") in E.PASS:
            e = g.el.get(e["a"][0])
        else:
            return None
    return None


# ---- places ---------------------------------------------------------------
def cache_places(fx, rep, P):
    rep.rule("results of different kinds are cached in different directories")
    seen = {}
    n = 0
    for name, what, _ in IDS:
        if not name.startswith("StorageUtils::"):
            continue
        g = each(fx, name)[0]
        lits = set()
        for e in g.elems():
            if e["op"] == "str" and re.fullmatch(r"[a-z][a-z-]+[a-z]",
                                                 e.get("val") or ""):
                lits.add(e["val"])
        calls = any(e["op"] == "call" and e.get("fn", "").startswith(
            "StorageUtils::Get") for e in g.elems())
        if calls and not lits:
            continue
        n += 1
        key = frozenset(lits)
        rep.ob(f"place:{name}", bool(lits) and key not in seen,
               f"{g.loc()}: {what} is cached in the directory of "
               f"{seen.get(key, 'no kind in particular')}",
               sample=f"{name}: {sorted(lits)}")
        seen[key] = what
    rep.count("kinds of cached results", n, 5)


def memo_reset(fx, rep):
    rep.rule("changing the description of a repository discards the keys "
             "computed from the previous one")
    g = each(fx, "RepositoryConfig::SetInfo")
    if not g:
        raise F.AnalysisError("anchor vanished: RepositoryConfig::SetInfo")
    g = g[0]
    want = {"key": False, "duplicates_": False}
    todo, seen = [g], set()
    cut = {w: set() for w in want}
    for e in g.elems():
        if e["op"] == "call" and short(e.get("fn", "")) == "Reset" and \
                e.get("o") is not None:
            o = g.el.get(e["o"], {})
            if o.get("m") in want:
                cut[o["m"]].add(e["B"])
        elif e["op"] == "call" and e.get("fk") and fx.has(e["fk"]):
            h = fx.func(e["fk"])
            for x in h.elems():
                if x["op"] == "call" and short(x.get("fn", "")) == "Reset" \
                        and h.el.get(x.get("o"), {}).get("m") in want:
                    cut[h.el[x["o"]]["m"]].add(e["B"])
    for w in want:
        whole = any(e["op"] in ("asg", "call") and e.get("opk", e.get(
            "k")) == "=" and "RepositoryData" in g.t(g.el.get(
                e.get("o", (e.get("a") or [None])[0]), {}))
            for e in g.elems())
        ok = bool(cut[w]) and not reaches(g, {g.exit}, cut[w]) or (
            whole and w == "key")
        rep.ob(f"memo:{w}", ok,
               f"{g.loc()}: SetInfo can leave {w} as it was computed for "
               "the previous description")
    # the base description is that of the new value
    P = PV.Prov(fx, opaque=OPAQUE)
    sets = []
    for e in g.elems():
        t = None
        if e["op"] == "asg":
            t, v = e["a"]
        elif e["op"] == "call" and e.get("opk") == "=" and \
                e.get("o") is not None and e.get("a"):
            t, v = e["o"], e["a"][0]
        if t is not None and g.el.get(t, {}).get("m") == "base_desc":
            sets.append((e, P.of(g, v)))
    ok = bool(sets) and all(any(
        a[0] == "p" and a[1] == g.key and a[2] == 1 for a in s)
        for _, s in sets) and not reaches(
            g, {g.exit}, {e["B"] for e, _ in sets})
    rep.ob("memo:base_desc", ok,
           f"{g.loc()}: SetInfo can leave the base description as it was "
           "for the previous value")
    rep.count("memoized keys", len(want) + 1, 3)
