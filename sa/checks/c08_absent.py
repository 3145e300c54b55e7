"""Absent values are not dereferenced.

Every place that reads through a std::optional or expected, through a pointer
that a function of the repository may return as null, or through the iterator a
lookup returned, is an obligation: on every path of the control-flow graph that
reaches it the object has been tested (or filled). What a function requires of
its parameters is an obligation of its callers. The body of a closure is
analysed in the states in which the closure is created (or called, if that is
seen)."""
import multiprocessing

import engine as E
import facts as F

LEVEL = "other"
ASSUMPTIONS = [
    "const accessors called again on the same object with the same arguments "
    "answer the same",
    "an object that was tested is not emptied through another name",
    "units that need generated protocol code are not analysed",
]

# What is known to be present for a reason the paths do not show:
# (file, what) -> reason
EXCEPT = {
    ("*", "Expression::FromJson"):
        "every value of a parsed JSON document is an expression",
    ("*", "BuildMaps::Base::FieldReader::ReadOptionalExpression"):
        "null only if Expression::FromJson is",
    ("built_in_rules.cpp", "BuildMaps::Base::FieldReader::CreatePtr"):
        "the description has a type entry, hence it is an object",
    ("export.cpp", "BuildMaps::Base::FieldReader::CreatePtr"):
        "the description has a type entry, hence it is an object",
    ("lookup_cache.cpp", "BuildMaps::Base::FieldReader::CreatePtr"):
        "the description has a type entry, hence it is an object",
    ("built_in_rules.cpp", "BuildMaps::Base::FieldReader::ReadStringList",
     "WithDeps"): "read and checked before the dependencies were requested",
    ("expression.cpp", "Expression::Value"): "read after IsList or IsMap",
    ("entity_name.hpp", "Expression::Value"): "callers ask IsList first",
    ("async_map_node.hpp", "AsyncMapNode::value_"):
        "nodes are read when they are ready (C05, C21)",
    ("resolve_symlinks_map.cpp", "FromHexString"):
        "identifiers that git printed",
    ("git_operations.cpp", "GitOpParams::init_bare"):
        "given by those who ask for that operation",
    ("update.cpp", "MultiRepoCommonArguments::git_path"):
        "main gives the options their defaults",
    ("update.cpp", "MultiRepoCommonArguments::local_launcher"):
        "main gives the options their defaults",
    ("launch.cpp", "MultiRepoCommonArguments::just_path"):
        "main gives the options their defaults",
    ("launch.cpp", "LocalPaths::root"):
        "main gives the options their defaults",
    ("launch.cpp", "std::nullopt_t"):
        "the configuration was set up if it is to be used",
    ("dfa_minimizer.hpp", "DFAMinimizer::LookupPairValue"):
        "all pairs of states of one bucket were entered before",
    ("main.cpp", "RepositoryConfig::TargetFileName"):
        "the repository has a target root, hence it is known",
    ("target_utils.cpp", "FileRoot::GetAbsentTreeId"): "read after IsAbsent",
    ("json_file_map.hpp", "FileRoot::GetAbsentTreeId"): "read after IsAbsent",
    ("compactification_task.cpp", "std::get"):
        "the scans were all found complete before",
    ("archive_fetch_map.cpp", "LocalCAS::BlobPath"):
        "the content was fetched to the CAS before",
}
SKIP = ("src/utils/cpp/expected.hpp",)

PTR = ("std::shared_ptr<", "std::unique_ptr<", "ExpressionPtr",
       "atomic_shared_ptr")
LOOKUP = ("find", "lower_bound", "upper_bound")
STDFIND = ("std::find", "std::find_if", "std::find_if_not",
           "std::lower_bound", "std::upper_bound", "std::search",
           "std::adjacent_find", "std::max_element", "std::min_element")
DEPTH = 4


def base_type(t):
    return t.replace("const ", "").rstrip("& ")


def is_opt(t):
    t = base_type(t)
    return t.startswith(("std::optional<", "expected<")) and not \
        t.endswith("*")


def is_ptr(t):
    t = base_type(t)
    return t.startswith(PTR) or t.endswith("*")


def last(fn):
    return F.plain(fn).rsplit("::", 1)[-1]


class Eng(E.Engine):

    slice = None        # access paths to keep track of

    def __init__(self, facts, policy):
        super().__init__(facts, policy)
        self.eids = {}
        self.uses = policy.ck.uses

    def narrow(self, f, eid, signs, st):
        r = super().narrow(f, eid, signs, st)
        if r is None:
            return None
        v = r.env.get(eid)
        if v is not None and v.al is not None and ":" in v.al:
            # the answer of an accessor, for the next time it is asked
            w = v.but(al=None)
            x = r.env.get(v.al)
            if x is None or x != w:
                r = r.set(v.al, w)
        return r

    def assume(self, f, eid, truth, st, depth=0):
        st = super().assume(f, eid, truth, st, depth)
        e = f.el.get(eid)
        if st is None or e is None or e["op"] != "ref" or depth > 10 or \
                e.get("k") != "l" or base_type(f.t(e)) != "bool":
            return st
        # a flag that holds the outcome of a test
        i = self.p.ck.flag(f, e["v"])
        if i is None:
            return st
        x = st.env.get(i)
        if x is not None:
            env = dict(st.env)
            del env[i]
            st = E.State(env, st.ts)
        return self.assume(f, i, truth, st, depth + 1)

    def sliced(self, g, k, v):
        if not isinstance(k, str):
            r = self.eids.get((g.key, k))
            if r is None:
                roots = {x.split(".", 1)[0] for x in self.slice}
                r = self.eids[(g.key, k)] = bool(
                    self.p.ck.roots(g, g.el[k]) & roots)
            return r
        if k in ("this", "$ret", "$throw") or v.tag is not None and \
                v.tag[0] == "lam":
            return True
        return any(k == x or k.startswith(x + ".") or x.startswith(k + ".")
                   for x in self.slice)

    def live_only(self, g, bid, env):
        env = super().live_only(g, bid, env)
        if self.slice is not None:
            env = {k: v for k, v in env.items() if self.sliced(g, k, v)}
        return env

    def assign(self, f, path, v, st, src=None):
        if v.al is not None and ":" in v.al:
            v = v.but(al=None)
        return super().assign(f, path, v, st, src)

    def do_ctor(self, f, e, st, depth):
        a = e.get("a", [])
        if len(a) == 1 and base_type(f.t(e)) == "ExpressionPtr":
            x = self.src(f, a[0])
            if x is not None and base_type(f.t(x)) == "std::nullptr_t":
                return [st.set(e["i"], E.V0)]
        return super().do_ctor(f, e, st, depth)

    def step(self, f, e, st, depth):
        op = e["op"]
        if op == "decl":
            out = []
            for x in super().step(f, e, st, depth):
                for d in e["d"]:
                    v = x.env.get(d.get("v"))
                    if v is not None and v.al is not None and ":" in v.al:
                        i = self.src(f, d.get("i")) if d.get("i") is not None \
                            else None
                        if d.get("rf") and i is not None and f.t(
                                i).endswith("&"):
                            continue
                        x = x.set(d["v"], x.env.get(v.al, v).but(al=None))
                out.append(x)
            return out
        if op == "mem" and not e.get("isf"):
            b = e.get("b")
            be = f.el.get(b)
            if be is not None and f.t(be).rstrip().endswith("*") and \
                    be["op"] != "this":
                st = self.p.deref(self, f, e, b, st)
                return [] if st is None else [st]
        elif op == "un" and e["k"] == "*":
            i = e["i"]
            be = f.el.get(e["a"][0])
            if be is not None and f.t(be).rstrip().endswith("*") and \
                    be["op"] != "this":
                st = self.p.deref(self, f, e, e["a"][0], st)
                if st is None:
                    return []
            out = []
            for x in super().step(f, e, st, depth):
                v = x.env.get(i)
                if v is not None and v.tag and v.tag[0] in ("null", "it"):
                    x = x.set(i, v.but(s=E.TOP, tag=None))
                out.append(x)
            return out
        return super().step(f, e, st, depth)


class Pol(E.Policy):
    drop_dead = True
    max_depth = 3

    def __init__(self, ck):
        self.ck = ck
        self.sites = {}         # (function, element, what) -> [f, e, bad, …]
        self.created = {}       # closure -> states of its creation
        self.entered = set()    # closures called where they are known

    def inline(self, eng, f, e, g, st, depth):
        if base_type(g.ret) == "bool" and g.file == f.file and \
                g.kind != "lambda" and len(g.el) < 80 and any(
                    is_opt(g.types[p[2]]) or is_ptr(g.types[p[2]])
                    for p in g.d["ps"] if p[2] >= 0):
            return True         # a test
        if g.kind == "lambda" and g.file == f.file:
            self.entered.add(g.key)
            return True
        return False

    def elem(self, eng, f, e, st):
        if e["op"] == "lambda" and e.get("fk"):
            roots = {"this"}
            for c in e.get("caps", ()):
                if c.get("v"):
                    roots.add(c["v"])
                    i = c.get("i")
                    if i is not None:
                        p = eng.path(f, i, st)
                        if p:
                            roots.add(p.split(".", 1)[0])
            env = {k: v for k, v in st.env.items() if isinstance(k, str) and
                   k.split(".", 1)[0] in roots}
            s = self.created.setdefault(e["fk"], {})
            if len(s) < 40:
                x = E.State(env, frozenset())
                s[x.key()] = x
        return None

    def site(self, f, e, what, bad, origin, path):
        r = self.sites.setdefault((f.key, e["i"], what, origin),
                                  [f, e, False, path])
        if bad:
            r[2] = True
            r[3] = path

    def deref(self, eng, f, e, o, st):
        """A read through o: records the obligation; the state in which it
        was fulfilled."""
        oe = f.el.get(o)
        if oe is None:
            return st
        if oe["op"] == "call" and last(oe.get("fn", "")) == "operator->":
            return st       # an obligation of its own
        t = f.t(oe)
        v = eng.val(f, o, st)
        tag = v.tag[0] if v.tag else None
        if is_opt(t):
            what = "optional"
            bad = bool(v.s & E.ZERO)
        elif tag in ("null", "it"):
            what = "pointer" if tag == "null" else "iterator"
            bad = bool(v.s & E.ZERO)
        elif is_ptr(t):
            what, bad = "pointer", v.s == E.ZERO
            if not bad:
                return st
        else:
            return st
        p = eng.path(f, o, st)
        self.site(f, e, what, bad, self.ck.origin(eng, f, o, v), p)
        if v.s == E.ZERO:
            return None
        return eng.narrow(f, o, E.POS | E.NEG, st)

    def call(self, eng, f, e, st, depth):
        fn = e.get("fn", "")
        n = last(fn)
        o = e.get("o")
        if e["op"] == "call" and o is not None:
            oe = f.el.get(o, {})
            t = f.t(oe)
            isd = n in ("operator*", "operator->") or n == "value" and \
                is_opt(t)
            if not isd and n not in ("operator bool", "operator!",
                                     "has_value", "operator==",
                                     "operator=") and \
                    t.rstrip().endswith("*") and oe.get("op") != "this":
                isd = True      # a method called through a plain pointer
            if isd:
                s2 = self.deref(eng, f, e, o, st)
                if s2 is None:
                    return []
                if s2 is not st:
                    st = s2
                    r = self.after(eng, f, e, st)
                    if r is None and n in ("operator*", "operator->",
                                           "value"):
                        # what follows is the engine's
                        p = eng.path(f, e["i"], st)
                        w = st.env.get(p) if p else None
                        return [(w if w is not None else E.UNK, st)]
                    if r is not None:
                        return r
                    return [(x.env.get(e["i"], E.UNK), x)
                            for x in eng.generic_call(f, e, st, depth)]
        if e["op"] == "call":
            r = self.requires(eng, f, e, st)
            if r is not None:
                st = r
        return self.after(eng, f, e, st)

    def after(self, eng, f, e, st):
        if e["op"] != "call":
            return None
        fn = e.get("fn", "")
        n = last(fn)
        o = e.get("o")
        t = f.t(e)
        if fn.startswith("std::") or fn.startswith("nlohmann"):
            if n in ("end", "cend", "rend") and not is_opt(t):
                return [(E.V0, st)]
            if o is not None and n in LOOKUP + ("contains", "count") and (
                    "map" in fn or "set<" in fn or "json" in fn):
                k = self.asked(eng, f, e, st, "find" if n in (
                    "contains", "count") else n)
                tag = ("it", "find")
                if k is None:
                    if n in LOOKUP:
                        return [(E.AV(E.TOP, None, tag), st)]
                    return None
                w = st.env.get(k)
                if w is None:
                    w = E.AV(E.TOP, None, tag)
                    st = st.set(k, w)
                return [(w.but(al=k), st)]
            if F.plain(fn) in STDFIND:
                return [(E.AV(E.TOP, None, ("it", n)), st)]
            if n in ("getenv", "get_if", "dynamic_pointer_cast") and \
                    is_ptr(t):
                return [(E.AV(E.TOP, None, ("null", n)), st)]
            return None
        fk = e.get("fk")
        if fn.startswith("expected<"):
            return None
        if o is not None and e.get("cst") and (
                is_opt(t) or is_ptr(t) or fk and self.ck.fx.has(fk) and
                self.ck.fx.func(fk).ret.endswith("&")):
            k = self.asked(eng, f, e, st, fn)
            if k is not None:
                w = st.env.get(k)
                if w is None:
                    w = E.AV(E.TOP, None, ("null", n)
                             if fk in self.ck.nullable else None)
                    st = st.set(k, w)
                return [(w.but(al=k), st)]
        if fk in self.ck.nullable and not is_opt(t):
            g = eng.callee(f, e, st)[0]
            if g is not None and self.inline(eng, f, e, g, st, 0):
                return None
            st = eng.havoc(f, e, st)
            return [(E.AV(E.TOP, None, ("null", n)), st)]
        return None

    @staticmethod
    def asked(eng, f, e, st, fn):
        """Name of the answer of an accessor of an object."""
        base = eng.path(f, e["o"], st)
        if base is None:
            return None
        args = []
        for a in e.get("a", []):
            v = eng.val(f, a, st)
            p = eng.path(f, a, st)
            if v.c is not None:
                args.append(repr(v.c))
            elif p is not None:
                args.append(p)
            else:
                return None
        return base + "." + (fn + ":" + ",".join(args)).replace(".", "/")

    def requires(self, eng, f, e, st):
        rq = self.ck.req.get(e.get("fk"))
        if not rq:
            return None
        out = st
        for (who, sub, what, origin) in rq:
            if who == "this":
                o = e.get("o")
            else:
                o = e["a"][who] if who < len(e.get("a", [])) else None
            if o is None or o < 0:
                continue
            p = eng.path(f, o, out)
            if sub == "":
                v = eng.val(f, o, out)
            elif p is not None:
                v = out.env.get(p + "." + sub, E.UNK)
            else:
                v = E.UNK
            q = None if p is None else (p + "." + sub if sub else p)
            self.site(f, e, what, bool(v.s & E.ZERO), origin, q)
        return out


class Check:

    def __init__(self, fx, rep):
        self.fx, self.rep = fx, rep
        self.nullable = set()
        self.req = {}
        self.limit = E.Engine.LIMIT

    def origin(self, eng, f, o, v):
        """Name of what is read through, without places."""
        e = eng.src(f, o) or {}
        hops = 0
        while e and hops < 6:
            hops += 1
            if e["op"] == "call":
                n = F.plain(e.get("fn", "")) or "closure"
                if last(n) in ("operator*", "operator->", "value", "get") \
                        and e.get("o") is not None:
                    e = eng.src(f, e["o"]) or {}
                    continue
                return (f.file.rsplit("/", 1)[-1], n)
            if e["op"] == "mem":
                return (f.file.rsplit("/", 1)[-1], F.plain(e.get(
                    "v", e["m"])))
            if e["op"] == "ref":
                i = self.init(f, e["v"])
                if i is None or i.get("op") == "ref" and \
                        i.get("v") == e["v"]:
                    return (f.file.rsplit("/", 1)[-1],
                            base_type(f.t(e)))
                e = i
                continue
            if e["op"] in ("un",) and e.get("a"):
                e = eng.src(f, e["a"][0]) or {}
                continue
            break
        return (f.file.rsplit("/", 1)[-1], base_type(f.t(e)) if e else "?")

    def init(self, f, v):
        d = self.inits.get(f.key)
        if d is None:
            d = self.inits[f.key] = {}
            for e in f.elems():
                for x in e.get("d", ()):
                    if x.get("i") is not None and "v" in x:
                        d[x["v"]] = x["i"]
        i = d.get(v)
        if i is None:
            return None
        hop = 0
        e = f.el.get(i)
        while e is not None and hop < 9 and e["op"] in ("cast", "ctor") and \
                len(e.get("a", [])) == 1:
            e = f.el.get(e["a"][0])
            hop += 1
        return e

    def flag(self, f, v):
        """What a flag was initialised with, if that is all it ever is."""
        d = self.flags.get(f.key)
        if d is None:
            d = self.flags[f.key] = {}
            bad = set()
            for e in f.elems():
                for x in e.get("d", ()):
                    if x.get("i") is not None and "v" in x:
                        d[x["v"]] = x["i"]
                if e["op"] == "asg":
                    bad.add(f.el.get(e["a"][0], {}).get("v"))
                elif e["op"] == "un" and e["k"] == "&":
                    bad.add(f.el.get(e["a"][0], {}).get("v"))
                for c in e.get("caps", ()):
                    if c.get("ref"):
                        bad.add(c.get("v"))
            for b in bad:
                d.pop(b, None)
        return d.get(v)

    inits = {}
    flags = {}
    uses = {}

    # ---- functions that may return null --------------------------------
    def find_nullable(self):
        cand = [g for g in self.fx.funcs() if g.blocks and is_ptr(g.ret) and
                not is_opt(g.ret) and not g.file.startswith("/usr") and
                not g.q.startswith("expected<") and
                not g.q.startswith("ExpressionPtr::operator")]
        self.nullable_names = set()
        change = True
        while change:
            change = False
            for g in cand:
                if g.key in self.nullable:
                    continue
                pol = Pol(self)
                pol.follow_eh = True
                eng = Eng(self.fx, pol)
                for o in eng.run(g, E.State({}, frozenset())):
                    if o.how == "ret" and (o.val.s == E.ZERO or (
                            o.val.tag and o.val.tag[0] == "null" and
                            o.val.s & E.ZERO)):
                        self.nullable.add(g.key)
                        change = True
                        break
        self.nullable_names = {F.plain(g.q) for g in cand
                               if g.key in self.nullable}

    # ---- one function --------------------------------------------------
    def interesting(self, f):
        r = self.memo.get(f.key)
        if r is None:
            r = []
            for e in f.elems():
                if e["op"] == "call":
                    n = last(e.get("fn", ""))
                    o = e.get("o")
                    if n in ("operator*", "operator->", "value") and \
                            o is not None and is_opt(f.t(f.el.get(o, {}))):
                        r.append(None)
                    elif n in LOOKUP or F.plain(e.get("fn", "")) in STDFIND \
                            or n in ("getenv", "get_if",
                                     "dynamic_pointer_cast"):
                        r.append(None)
                    if e.get("fk"):
                        r.append(e["fk"])
                elif e["op"] == "lambda":
                    r.append(e.get("fk"))
            self.memo[f.key] = r
        return any(k is None or k in self.nullable or k in self.req
                   for k in r)

    memo = {}

    def run_one(self, f, seeds, slc=None, limit=None):
        pol = Pol(self)
        eng = Eng(self.fx, pol)
        eng.slice = slc
        if limit:
            eng.LIMIT = limit
        for s in seeds:
            eng.run(f, s)
        return pol, eng

    def analyse(self, f, seeds, done):
        """Runs f and the closures it creates. -> site records"""
        pol, eng = self.run_one(f, seeds)
        sites = pol.sites
        if eng.widened:
            self.by_path(f, seeds, sites)
        done[f.key] = sites
        for k, states in pol.created.items():
            if k in pol.entered or not self.fx.has(k):
                continue
            g = self.fx.func(k)
            if g.blocks and self.wanted(g):
                self.analyse(g, list(states.values()), done)

    def by_path(self, f, seeds, sites):
        """Again for a function with too many states: one object at a time,
        with what is tested together with it if need be."""
        st = E.State({}, frozenset())
        eng = Eng(self.fx, Pol(self))
        paths = {}
        for e in f.elems():
            o = e.get("o")
            if e["op"] == "un" and e["k"] == "*":
                o = e["a"][0]
            elif e["op"] == "mem":
                o = e.get("b") if not e.get("isf") else None
            elif e["op"] != "call":
                o = None
            if o is None or o < 0 or o not in f.el:
                continue
            t = f.t(f.el[o])
            if e["op"] == "call" and last(e.get("fn", "")) not in (
                    "operator*", "operator->", "value") and \
                    not t.rstrip().endswith("*"):
                continue
            p = eng.path(f, o, st)
            if p is not None and p != "this":
                paths.setdefault(p, []).append(e["i"])
        for p, ids in sorted(paths.items()):
            slices = [{p}]
            left = set(ids)
            first = True
            while slices and left:
                slc = slices.pop(0)
                p2, e2 = self.run_one(f, seeds, slc)
                for k, r in p2.sites.items():
                    if k[0] != f.key or k[1] not in left:
                        continue
                    old = sites.get(k)
                    if old is None:
                        sites[k] = r
                    elif first:
                        old[2], old[3] = r[2], r[3] or old[3]
                    elif not r[2]:
                        old[2] = False
                left = {k[1] for k, r in sites.items() if k[0] == f.key and
                        k[1] in left and r[2]}
                if first and left:
                    roots = set()
                    for i in left:
                        roots |= self.roots(f, f.el[i])
                    slices = [roots, {p} | (self.related(f, roots) - roots)]
                first = False
        for k, r in list(sites.items()):
            if r[2] and k[0] == f.key and not any(
                    k[1] in ids for ids in paths.values()):
                roots = self.roots(f, r[1])
                for slc in (roots, roots | self.related(f, roots)):
                    q = self.run_one(f, seeds, slc)[0].sites.get(k)
                    if q is not None and not q[2]:
                        r[2] = False
                        break

    def wanted(self, g, depth=0):
        if self.interesting(g):
            return True
        return depth < 6 and any(self.wanted(h, depth + 1)
                                 for h in self.fx.lambdas_of(g))

    def roots(self, f, e):
        """Variables an element is about."""
        out, stack, n = set(), [e["i"]], 0
        while stack and n < 60:
            n += 1
            x = f.el.get(stack.pop())
            if x is None:
                continue
            if x["op"] == "ref" and "v" in x and x.get("k") != "f":
                if x["v"] not in out:
                    out.add(x["v"])
                    for y in f.elems():
                        for d in y.get("d", ()):
                            if d.get("v") == x["v"] and d.get("rf") and \
                                    d.get("i") is not None:
                                stack.append(d["i"])
            stack.extend(E.Engine.children(x))
        return out

    def related(self, f, roots):
        """Variables tested together with them."""
        out = set()
        for b in f.blocks.values():
            t = b.get("t")
            if t and t.get("c") is not None and t["c"] in f.el:
                r = self.roots(f, f.el[t["c"]])
                if r & roots:
                    out |= r
        return out

    def parallel(self, work):
        """analyse() of many functions, in processes of their own."""
        global CHECK
        CHECK = self
        work = sorted(work, key=lambda f: -len(f.el))
        with multiprocessing.get_context("fork").Pool(JOBS) as pool:
            res = pool.map(job, [f.key for f in work], chunksize=1)
        for r in res:
            yield {fk: {k: [self.fx.func(x[0]), self.fx.func(x[0]).el[x[1]],
                            x[2], x[3]] for k, x in sites.items()}
                   for fk, sites in r.items()}

    def run(self):
        self.find_nullable()
        tops = [f for f in self.fx.funcs() if f.blocks and
                f.kind != "lambda" and not f.file.startswith("/usr")]
        self.all = {}
        work = [f for f in tops if self.wanted(f)]
        rounds = 0
        callers = {}
        for f in tops:
            stack = [f]
            while stack:
                g = stack.pop()
                for e in g.elems():
                    if e.get("fk"):
                        callers.setdefault(e["fk"], set()).add(f.key)
                stack.extend(self.fx.lambdas_of(g))
        while work and rounds <= DEPTH:
            rounds += 1
            new = {}
            for done in self.parallel(work):
                self.all.update(done)
                for key, sites in done.items():
                    for k, r in sites.items():
                        if not r[2] or r[3] is None:
                            continue
                        g, p = r[0], r[3]
                        root, _, sub = p.partition(".")
                        if ":" in sub:
                            continue    # answer of an accessor
                        ps = [x[0] for x in g.params]
                        if g.kind == "lambda":
                            continue
                        if root in ps:
                            who = ps.index(root)
                        elif root == "this" and sub:
                            who = "this"
                        else:
                            continue
                        if not callers.get(g.key) or rounds > DEPTH:
                            continue
                        q = (who, sub, k[2], k[3])
                        if q not in self.req.get(g.key, ()):
                            self.req.setdefault(g.key, set()).add(q)
                            new.setdefault(g.key, set()).add(q)
                        r[2] = "callers"
            keys = set()
            for k in new:
                keys |= callers.get(k, set())
            work = [f for f in tops if f.key in keys]


CHECK = None
JOBS = 8


def job(key):
    done = {}
    CHECK.analyse(CHECK.fx.func(key), [E.State({}, frozenset())], done)
    return {fk: {k: (r[0].key, r[1]["i"], r[2], r[3])
                 for k, r in sites.items()} for fk, sites in done.items()}


def excepted(f, origin):
    file, what = origin
    for k, r in EXCEPT.items():
        if k[0] in ("*", file) and k[1] == what and (
                len(k) < 3 or k[2] in f.q or k[2] in (f.d.get("par") or "")):
            return r
    return None


def run(fx, rep):
    rep.rule("a std::optional or expected is read only on paths on which it "
             "was found engaged or was filled")
    rep.rule("a pointer that a repository function may return as null, "
             "std::get_if, getenv or a dynamic cast gave is dereferenced only "
             "on paths on which it was found non-null")
    rep.rule("the iterator of a lookup is dereferenced only on paths on which "
             "it was compared with the end")
    rep.rule("what a function needs of its parameters or members is an "
             "obligation of its callers; a closure is analysed in the states "
             "in which it is created")
    ck = Check(fx, rep)
    ck.run()
    kinds = {"optional": 0, "pointer": 0, "iterator": 0}
    exc = {}
    for key, sites in sorted(ck.all.items()):
        for (fk, _, what, origin), (f, e, bad, path) in sites.items():
            if f.file in SKIP:
                continue
            kinds[what] += 1
            if bad is True:
                r = excepted(f, origin)
                if r is not None:
                    exc[origin] = r
                    rep.ob("", True)
                    continue
            rep.ob(f"{origin[0]}:{f.q.rsplit('::', 1)[-1]}:{origin[1]}",
                   bad is not True,
                   f"{f.loc(e)} {f.q}: {what} from {origin[1]} may be absent "
                   "when it is read",
                   f"{f.file}:{e.get('l', 0)} {what} {origin[1]}")
    rep.count("reads of optional values", kinds["optional"], 500)
    rep.count("reads through pointers", kinds["pointer"], 50)
    rep.count("reads through lookup results", kinds["iterator"], 30)
    rep.count("functions that may return null", len(ck.nullable), 20)
    for o, r in sorted(exc.items()):
        rep.note(f"exempt: {o[0]} {o[1]}: {r}")
