"""Objects are filed under the identifier of their content.

Every key an object is stored under is derived from a hash of the very value
that is stored, with the variant of the hash (blob or tree) that belongs to
the kind of the object; the parts of a split object are recorded only after
all of it was read; what is hashed is the tag with the size, then the whole
content; known artifacts a rule defines come with the content they were
computed from."""
import engine as E
import facts as F
import lib
import prov as PV
import taint as T

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "SHA-1 and SHA-256 as implemented by OpenSSL; numeric correctness of "
    "chunk boundaries and of buffer offsets is not decided",
    "LocalCAS::Splice, CheckTreeInvariant and the uplink functions need "
    "protobuf messages and are not part of the analysed build",
]
HASHES = ("ArtifactDigestFactory::HashDataAs",
          "ArtifactDigestFactory::HashFileAs", "HashInfo::HashData",
          "HashInfo::HashFile")
TREE = {"ObjectType::Tree"}


def fn(e):
    return F.plain(e.get("fn", ""))


def last(e):
    return fn(e).rsplit("::", 1)[-1]


class Cx:

    def __init__(self, fx, rep):
        self.fx, self.rep = fx, rep
        self.P = PV.Prov(fx)
        self._calls = None

    def callers(self, key):
        if self._calls is None:
            c = self._calls = {}
            for f in self.fx.funcs():
                for e in f.elems():
                    if e["op"] in ("call", "ctor") and e.get("fk"):
                        c.setdefault(e["fk"], []).append((f, e))
        return self._calls.get(key, ())


def params(atoms, f):
    return {a[2] for a in atoms if a[0] == "p" and a[1] == f.key}


def hashed(atoms):
    return any(a[0] == "fn" and a[1] in HASHES for a in atoms)


def hasher_params(f):
    return {j for j, p in enumerate(f.params)
            if "HashFunction" in str(p[2] if len(p) > 2 else "")}


def pair(cx, f, key, content, what, strict=False, depth=0):
    """The key is the hash of the content."""
    P, rep = cx.P, cx.rep
    ka, ca = P.of(f, key), P.of(f, content)
    o = P.outer(f)
    name = f"{what}: {F.plain(o.q)}"
    e = f.el[key]
    if hashed(ka):
        # everything the content comes from has been hashed, and no other
        # value of the same kind has
        cp, kp = params(ca, o), params(ka, o)
        tys = {ctype(o, j) for j in cp}
        other = {j for j in kp - cp if ctype(o, j) in tys}
        src = {a for a in ca if a[0] in ("p", "this")} or {
            a for a in ca if a[0] == "fn"}
        miss = {a for a in src if a not in ka and not any(
            b[:3] == a[:3] for b in ka)}
        ok = bool(src) and not miss and not other
        vs = copies(cx, f, content)
        if vs:
            kc = closure(cx, f, key)
            ok = ok and any(v in kc for v in vs)
            bad = [b for v in vs for b in changed_after(cx, f, v, key)]
            rep.ob(name + ", changes", not bad,
                   f"the content is changed at {f.loc(bad[0])} after it was "
                   "hashed" if bad else "")
        if strict:
            rep.ob(name + ", as is", as_is(cx, f, key),
                   f"the key at {f.loc(e)} is not the hash itself")
        rep.ob(name, ok,
               f"the key at {f.loc(e)} is not the hash of what is stored "
               f"under it (content from {fmt(o, ca)}, key from "
               f"{fmt(o, ka)})", f"{f.loc(e)}: key = hash of the content")
        return 1
    kp, cp = params(ka, o), params(ca, o)
    if len(kp) == 1 and len(cp) == 1 and depth < 4 and kp != cp:
        n = 0
        k, c = next(iter(kp)), next(iter(cp))
        for g, call in cx.callers(o.key):
            a = call.get("a", ())
            if max(k, c) < len(a):
                n += pair(cx, g, a[k], a[c], what, strict, depth + 1)
        return n
    rep.ob(name, False, f"the key at {f.loc(e)} is not derived from a hash "
           f"of the content stored under it ({fmt(o, ka)})")
    return 1


def ctype(f, j):
    """Kind of a parameter: its type without const, reference and owner."""
    return ptype(f, j).replace("const ", "").strip("& ")


def copies(cx, f, eid):
    """The variables that hold the value unchanged."""
    fr = cx.P.frame(f)
    out, todo = [], [(f, eid)]
    while todo:
        g, i = todo.pop()
        u = unwrap(g, i)
        v = cx.P.root(g, u if u is not None else i)
        if v is None or v in out or v.startswith("this."):
            continue
        out.append(v)
        todo.extend((h, j) for h, j in fr.get(v, ()) if is_def(h, v, j))
    return out


def closure(cx, f, eid, elems=None):
    """The variables a value is computed from, within the function."""
    fr = cx.P.frame(f)
    out, todo, seen = set(), [(f, eid)], set()
    while todo:
        g, i = todo.pop()
        if i is None or i < 0 or (g.key, i) in seen:
            continue
        seen.add((g.key, i))
        e = g.el.get(i)
        if e is None:
            continue
        if elems is not None:
            elems.append((g, e))
        if e["op"] == "ref" and e.get("k") not in ("f", "e") and \
                e["v"] not in out:
            out.add(e["v"])
            todo.extend(fr.get(e["v"], ()))
        todo.extend((g, c) for c in E.Engine.children(e))
    return out


def as_is(cx, f, eid, n=0):
    """The hash of a digest, not changed on the way."""
    while n < 20:
        n += 1
        e = f.el.get(eid)
        if e is None:
            return False
        if e["op"] == "cast" or e["op"] == "ctor" and len(
                e.get("a", ())) == 1:
            eid = e["a"][0]
        elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
            eid = e["a"][0]
        elif e["op"] == "call" and (E.is_deref_call(e)):
            eid = e["o"]
        elif e["op"] == "call" and last(e) in ("hash", "Hash", "HexString"):
            return True
        elif e["op"] == "call" and e.get("fk") and cx.fx.has(e["fk"]):
            g = cx.fx.func(e["fk"])
            rs = [r for r in g.elems() if r["op"] == "ret" and r.get("a")]
            return bool(rs) and all(as_is(cx, g, r["a"][0], n) for r in rs)
        elif e["op"] == "ref" and e.get("k") not in ("f", "e"):
            st = cx.P.frame(f).get(e["v"], ())
            if any(p[0] == e["v"] for p in f.params):
                return True
            defs = [d for d in st if d[0].el[d[1]]["op"] not in ("bin", )]
            own = [(g, i) for g, i in defs if is_def(g, e["v"], i)]
            if not own:
                return False
            return all(as_is(cx, g, i, n) for g, i in own) and \
                len(own) == len([d for d in defs if not cond(d)])
        else:
            return False
    return False


def is_def(g, v, i):
    for e in g.elems():
        if e["op"] == "decl" and any(d["v"] == v and d.get("i") == i
                                     for d in e["d"]):
            return True
        if e["op"] == "asg" and e["a"][1] == i:
            return True
        if e["op"] == "call" and e.get("opk") == "=" and i in e.get("a", ()):
            return True
    return False


def cond(d):
    g, i = d
    return g.t(g.el[i]) == "bool"


def changed_after(cx, f, var, key):
    """Changes of the content after it was hashed."""
    whole = any(p[0] == var for p in f.params)
    hs = [e for e in f.elems() if e["op"] == "call" and (
        fn(e) in HASHES or e.get("fk") and cx.fx.has(e["fk"]) and hashed(
            cx.P.returns(cx.fx.func(e["fk"]))))
          and any(var in closure(cx, f, a) for a in e.get("a", ()))]
    out = []
    for h in hs:
        reach, todo = set(), [s for s in f.blocks[h["B"]]["s"]
                              if s in f.blocks]
        while todo:
            b = todo.pop()
            if b not in reach:
                reach.add(b)
                todo.extend(s for s in f.blocks[b]["s"] if s in f.blocks)
        for e in f.elems():
            if not (whole or e["B"] in reach or e["B"] == h["B"] and
                    pos(f, e) > pos(f, h)):
                continue
            if e["op"] == "asg" and cx.P.root(f, e["a"][0]) == var:
                out.append(e)
            if e["op"] == "call" and e.get("o") is not None and cx.P.root(
                    f, e["o"]) == var and last(e) in (
                        "append", "assign", "clear", "erase", "insert",
                        "resize", "replace", "push_back", "pop_back",
                        "operator=", "operator+=", "replace_extension",
                        "replace_filename", "remove_filename"):
                out.append(e)
    return out


def pos(f, e):
    for n, i in enumerate(f.blocks[e["B"]]["e"]):
        if (i["i"] if isinstance(i, dict) else i) == e["i"]:
            return n
    return -1


def unwrap(f, eid, n=0):
    """The variable wrapped in constructors and make_shared."""
    while n < 20:
        n += 1
        e = f.el.get(eid)
        if e is None:
            return None
        if e["op"] == "ref":
            return eid
        if e["op"] in ("cast", "ctor", "un") and len(e.get("a", ())) == 1:
            eid = e["a"][0]
        elif e["op"] == "call" and (e.get("fn") in E.PASS or last(e) in (
                "make_shared", "make_unique", "make_optional")) and len(
                    e.get("a", ())) == 1:
            eid = e["a"][0]
        elif E.is_deref_call(e):
            eid = e["o"]
        else:
            return None
    return None


def fmt(f, atoms):
    out = set()
    for a in atoms:
        if a[0] == "p" and a[2] < len(f.params):
            out.add(f.params[a[2]][1])
        elif a[0] == "this":
            out.add("this." + ".".join(a[1]))
    return ", ".join(sorted(out)) or "nothing passed in"


def keys(cx):
    """ObjectCAS: every write to its file store."""
    n = 0
    for f in cx.fx.funcs():
        if not F.plain(f.q).startswith("ObjectCAS::") and not (
                f.par and "ObjectCAS" in f.par):
            continue
        for e in f.elems():
            if e["op"] == "call" and fn(e) in (
                    "FileStorage::AddFromBytes", "FileStorage::AddFromFile",
                    "FileStorage::AtomicAddFromBytes",
                    "FileStorage::AtomicAddFromFile") and \
                    len(e.get("a", ())) >= 2:
                n += pair(cx, f, e["a"][0], e["a"][1], "key of an object",
                          True)
    if not n:
        raise F.AnalysisError("anchor vanished: writes of ObjectCAS")
    cx.rep.count("object stores", n)


def store_result(cx):
    """What ObjectCAS reports as stored is the digest of the data it was
    given, and is reported only if the data is there."""
    for g in cx.fx.named("ObjectCAS::StoreBlob"):
        for e in g.elems():
            if e["op"] != "ret" or not e.get("a"):
                continue
            at = cx.P.of(g, e["a"][0])
            cp = params(at, g)
            if not hashed(at):
                continue
            cx.rep.ob(f"reported digest: {F.plain(g.q)}", 0 in cp,
                      f"{g.loc(e)} reports a digest of something else than "
                      "the data that was stored")


def pairs(cx):
    """Classes that hold an identifier together with its content."""
    n = 0
    for cls, k, c in (("ArtifactBlob::ArtifactBlob", 0, 1),
                      ("BackendDescription::BackendDescription", 1, 0)):
        m = 0
        for f in cx.fx.funcs():
            if f.file.startswith("/usr"):
                continue
            for e in f.elems():
                if e["op"] == "ctor" and fn(e) == cls and not e.get("cm") \
                        and len(e.get("a", ())) > max(k, c):
                    m += pair(cx, f, e["a"][k], e["a"][c],
                              "identifier of " + cls.split("::")[0])
        if not m:
            raise F.AnalysisError("anchor vanished: " + cls)
        n += m
    cx.rep.count("identifier and content pairs", n)


def hash_calls(f, e):
    return e["op"] == "call" and fn(e) in ("HashInfo::HashData",
                                           "HashInfo::HashFile")


def variants(cx):
    """The variant of the hash is the one of the kind of the object."""
    fx, rep = cx.fx, cx.rep
    types = {c[0].rsplit("::", 1)[-1]: c[1]
             for c in lib.enum(fx, "ObjectType")["cs"]}
    n = 0

    def record(eng, f, e, st):
        if e["op"] == "call" and fn(e) in ("HashInfo::HashData",
                                           "HashInfo::HashFile"):
            return ("variant", eng.val(f, e["a"][2], st).c)
        return None

    def seen(g, args):
        s = set()
        for o in lib.evaluate(fx, g, args, record):
            s |= {x[1] for x in o.st.ts if isinstance(x, tuple) and
                  x[0] == "variant"}
        return s

    for g in fx.funcs():
        q = F.plain(g.q)
        if q == "ObjectCAS::StoreBlob" and g.blocks:
            kind = g.q.split("ObjectType::", 1)[1].split(">")[0].split(
                ",")[0]
            got = seen(g, [None] * len(g.params))
            want = kind == "Tree"
            n += 1
            rep.ob(f"variant of the hash: {g.q.split('::')[0]}",
                   got == {want},
                   f"{g.loc()}: {kind} objects are hashed as "
                   f"{'blobs' if want else 'trees'} ({sorted(map(str, got))}"
                   ")")
        if q in ("ArtifactBlob::FromMemory", "ArtifactBlob::FromFile",
                 "ArtifactBlob::FromTempFile"):
            tj = [j for j, p in enumerate(g.params)
                  if p[1] == "type" or "ObjectType" in ptype(g, j)]
            if len(tj) != 1:
                raise F.AnalysisError("anchor vanished: type of " + q)
            for name, v in types.items():
                args = [None] * len(g.params)
                args[tj[0]] = v
                got = seen(g, args)
                want = name == "Tree"
                n += 1
                rep.ob(f"variant of the hash: {q} {name}", got <= {want} and
                       got, f"{g.loc()}: {name} objects are not hashed as "
                       f"{'trees' if want else 'blobs'}")
    # HashInfo picks the function accordingly
    for q, fs in (("HashInfo::HashData", ("HashTreeData", "HashBlobData")),
                  ("HashInfo::HashFile", ("HashTreeFile", "HashBlobFile"))):
        for g in fx.named(q):
            for tree in (True, False):
                s = set()
                for o in lib.evaluate(
                        fx, g, [None, None, tree],
                        lambda eng, f, e, st: ("h", last(e))
                        if e["op"] == "call" and fn(e).startswith(
                            "HashFunction::Hash") else None):
                    s |= {x[1] for x in o.st.ts if isinstance(x, tuple)}
                s = {x for x in s if x.startswith("Hash")}
                want = fs[0] if tree else fs[1]
                n += 1
                rep.ob(f"{q} of a {'tree' if tree else 'blob'}",
                       s == {want}, f"{g.loc()}: a "
                       f"{'tree' if tree else 'blob'} is hashed with {s}")
    for q in ("ArtifactDigestFactory::HashDataAs",
              "ArtifactDigestFactory::HashFileAs"):
        for g in fx.named(q):
            for e in g.elems():
                if e["op"] == "ctor" and fn(e) == \
                        "ArtifactDigest::ArtifactDigest" and \
                        not e.get("cm") and len(e.get("a", ())) == 2:
                    h, s = (params(cx.P.of(g, a), g) for a in e["a"])
                    n += 1
                    rep.ob(f"hash and size of the same content: {q}",
                           1 in h and s and s <= h and 1 in s,
                           f"{g.loc(e)}: hash and size of a digest are not "
                           "computed from the same content")
    rep.count("hash variants", n, 15)


def ptype(g, j):
    p = g.params[j]
    return str(p[2]) if len(p) > 2 else ""


def literals_of(cx, atoms):
    """Literals, also of the functions that are handed on by name."""
    out = {a[1] for a in atoms if a[0] == "lit"}
    for a in atoms:
        if a[0] == "fn" and a[1]:
            for g in cx.fx.named(a[1].replace("(anonymous namespace)::", "")):
                out |= {x[1] for x in cx.P.returns(g) if x[0] == "lit"}
    return {x for x in out if isinstance(x, str)}


def chains(cx, m):
    """Call chains from a method to the functions that feed the hasher:
    [(function, chain of calls)]"""
    out, todo = [], [(m, ())]
    while todo:
        g, ch = todo.pop()
        ups = [e for e in g.elems() if e["op"] == "call" and
               fn(e) == "Hasher::Update"]
        if ups:
            out.append((g, ch, ups))
        if len(ch) > 4:
            continue
        for e in g.elems():
            k = e.get("fk")
            if e["op"] == "call" and k and cx.fx.has(k):
                h = cx.fx.func(k)
                if h.blocks and h.file.startswith(
                        "src/buildtool/crypto/hash_function") and all(
                            h is not x[0] for x in ch):
                    todo.append((h, ch + ((g, e), )))
    return out


def lift(cx, atoms, chain):
    """Atoms of a function in terms of the parameters of the outermost."""
    for g, e in reversed(chain):
        out = set()
        for a in atoms:
            if a[0] == "p" and e.get("fk") == a[1]:
                if a[2] < len(e.get("a", ())):
                    out |= cx.P.of(g, e["a"][a[2]])
            else:
                out.add(a)
        atoms = out
    return atoms


def digests(cx):
    """What is fed to the hasher: the tag first, then the content."""
    fx, rep = cx.fx, cx.rep
    n = 0
    for name, tag in (("HashBlobData", "blob "), ("HashBlobFile", "blob "),
                      ("HashTreeData", "tree "), ("HashTreeFile", "tree "),
                      ("PlainHashData", None)):
        m = lib.one(fx, "HashFunction::" + name)
        cls = {}
        for g, ch, ups in chains(cx, m):
            for e in ups:
                at = lift(cx, cx.P.of(g, e["a"][0]), ch)
                lits = literals_of(cx, at)
                tags = {x for x in lits if x.startswith(("blob", "tree"))}
                own = 0 in params(at, m)
                if tags:
                    cls[(g.key, e["i"])] = "tag"
                    rep.ob(f"tag: {name}", tags == {tag} and own,
                           f"{g.loc(e)}: {name} is hashed with the tag "
                           f"{sorted(tags)}"
                           f"{'' if own else ' without its size'}")
                else:
                    cls[(g.key, e["i"])] = "data"
                    rep.ob(f"content: {name}", own,
                           f"{g.loc(e)}: {name} feeds something else than "
                           "its argument to the hash")
        if not cls:
            raise F.AnalysisError("anchor vanished: updates of " + name)
        hty = {c[0].rsplit("::", 1)[-1]: c[1] for c in lib.enum(
            fx, "HashFunction::Type")["cs"]}
        for native, ty in ((True, hty["GitSHA1"]),
                           (False, hty["PlainSHA256"])):

            class Pol(lib.EvalPolicy):

                def call(self, eng, f, e, st, depth):
                    if e["op"] == "call" and fn(e) == "Hasher::Update":
                        c = cls.get((f.key, e["i"]), "other")
                        k = sum(1 for x in st.ts if isinstance(x, tuple) and
                                x[0] == "u")
                        if k < 4:
                            st = st.with_ts(st.ts | {("u", k, c)})
                        return [(E.TRUE, st)]
                    if fn(e).startswith("Hasher::") or fn(e).endswith(
                            "MakeHasher"):
                        if last(e) == "Finalize":
                            return [(E.UNK, st.with_ts(st.ts | {"done"}))]
                        return [(E.UNK, st)]
                    return None

                def inline(self, eng, f, e, g, st, depth):
                    return g.file.startswith(
                        "src/buildtool/crypto/hash_function")

            eng = E.Engine(fx, Pol())
            env = {("this", "type_"): E.const(ty), "this.type_": E.const(ty)}
            bad, fin = set(), 0
            for o in eng.run(m, E.State(env, frozenset())):
                if "done" not in o.st.ts:
                    continue
                fin += 1
                seq = [x[2] for x in sorted(
                    x for x in o.st.ts if isinstance(x, tuple))]
                if tag is None:
                    ok = "tag" not in seq and "data" in seq
                elif native:
                    ok = seq[:1] == ["tag"] and "tag" not in seq[1:] and (
                        "data" in seq or name.endswith("File"))
                else:
                    ok = "tag" not in seq and (
                        "data" in seq or name.endswith("File"))
                if name.endswith("Data") and tag and seq.count("data") != 1:
                    ok = False
                if not ok:
                    bad.add(tuple(seq))
            n += 1
            rep.ob(f"what is hashed: {name}, "
                   f"{'native' if native else 'compatible'}",
                   not bad and fin, f"{m.loc()}: {name} hashes "
                   f"{' / '.join('+'.join(b) or 'nothing' for b in bad)}")
    rep.count("hash functions", n, 10)


def split(cx):
    """Large entries: written only if all of the object was read, under the
    digest that was asked for, listing exactly the stored parts in order."""
    fx, rep = cx.fx, cx.rep
    gs = fx.named("LargeObjectCAS::Split")
    if not gs:
        raise F.AnalysisError("anchor vanished: LargeObjectCAS::Split")

    def writes(f, e):
        return e["op"] == "call" and fn(e) in (
            "LargeObjectCAS::WriteEntry", "FileStorage::AddFromBytes")

    def results(eng, f, e, st):
        return e["op"] == "ctor" and fn(e).startswith("expected::") and any(
            "vector" in f.t(f.el.get(a, {})) and "Error" not in f.t(
                f.el.get(a, {})) for a in e.get("a", ()))

    for g in gs:
        for what, test in (("not all of the object was read",
                            lambda f, e: last(e) == "Finished"),
                           ("a part could not be stored",
                            lambda f, e: last(e) == "StoreBlob")):
            hits = [False]

            def assume(f, e, test=test, hits=hits):
                if e["op"] == "call" and test(f, e):
                    hits[0] = True
                    return E.FALSE if last(e) == "Finished" else E.ABSENT \
                        if hasattr(E, "ABSENT") else E.AV(E.ZERO)
                return None
            spec = {
                "source": lambda f, e: False, "shallow": True,
                "explicit": True,
                "sink": lambda f, e, t: False,
                "assume": assume,
                "effect": lambda f, e, test=test: (
                    "failed", ) if e["op"] == "call" and test(f, e) else (
                        "open", ) if last(e) == "NextChunk" else (),
                "esink": lambda eng, f, e, st: (
                    "failed" in st.ts or "open" in st.ts and False) and
                (writes(f, e) or results(eng, f, e, st))}
            pol, outs, eng = T.run(fx, g, spec, None)
            if not hits[0]:
                rep.ob(f"split: {what}", False,
                       f"{g.loc()}: it is not looked at whether {what}")
                continue
            hit = [x for x in pol.hits.values()]
            rep.ob(f"split: {what}", not hit,
                   f"{hit[0][0].loc(hit[0][1])}: the entry is used although "
                   f"{what}" if hit else "",
                   f"{g.loc()}: {what} -> no entry")
        # finished is asked on every path from the chunks to the entry
        spec = {
            "source": lambda f, e: False, "shallow": True, "explicit": True,
            "sink": lambda f, e, t: False,
            "effect": lambda f, e: ("open", ) if last(e) == "NextChunk" else
            ("asked", ) if last(e) == "Finished" else (),
            "esink": lambda eng, f, e, st: "open" in st.ts and
            "asked" not in st.ts and (writes(f, e) or results(eng, f, e,
                                                              st))}
        pol, outs, eng = T.run(fx, g, spec, None)
        hit = list(pol.hits.values())
        rep.ob("split: completeness is asked for", not hit,
               f"{hit[0][0].loc(hit[0][1])}: parts are used without asking "
               "whether all of the object was read" if hit else "")
        for e in g.elems():
            if e["op"] == "call" and fn(e) == "LargeObjectCAS::WriteEntry":
                k = cx.P.of(g, e["a"][0])
                p = cx.P.of(g, e["a"][1])
                rep.ob("split: key of the entry", params(k, g) == {0} and
                       not any(a[0] == "fn" and "StoreBlob" in str(a[1])
                               for a in k),
                       f"{g.loc(e)}: the entry is not filed under the "
                       "digest of the object")
                rep.ob("split: parts of the entry",
                       ("fn", "FileChunker::NextChunk") in p,
                       f"{g.loc(e)}: the parts are not the chunks of the "
                       "object")
                v = cx.P.root(g, e["a"][1])
                for h in cx.P.nest(g):
                    for c in h.elems():
                        if c["op"] == "call" and c.get("o") is not None and \
                                cx.P.root(h, c["o"]) == v and v and \
                                last(c) in ("insert", "erase", "clear",
                                            "pop_back", "resize", "emplace",
                                            "swap", "assign"):
                            rep.ob("split: order of the parts", False,
                                   f"{h.loc(c)}: the list of parts is "
                                   f"changed by {last(c)}")
    for g in fx.named("LargeObjectCAS::WriteEntry"):
        for e in g.elems():
            if e["op"] == "call" and fn(e) == "FileStorage::AddFromBytes":
                k = cx.P.of(g, e["a"][0])
                ps = params(k, g)
                rep.ob("large entry: key", ps == {0},
                       f"{g.loc(e)}: the entry is not filed under the "
                       "digest of the object")


def known(cx):
    """A rule that defines a known artifact from a string also hands on the
    string."""
    fx, rep = cx.fx, cx.rep
    n = 0

    def known_call(f, e):
        if e["op"] != "call" or fn(e) != "ArtifactDescription::CreateKnown":
            return False
        return hashed(cx.P.of(f, e["a"][0]))

    def strings(t):
        return "vector<std::basic_string" in t or "vector<std::string" in t

    for f in fx.funcs():
        if "build_engine/target_map" not in f.file:
            continue
        for e in f.elems():
            if not known_call(f, e):
                continue
            n += 1
            content = None
            els = []
            closure(cx, f, e["a"][0], els)
            for g, c in els:
                if c["op"] == "call" and g is f and fn(c) in HASHES:
                    content = c["a"][1]
            if content is None:
                # computed before
                at = cx.P.of(f, e["a"][0])
            else:
                at = cx.P.of(f, content)
            want = {a for a in at if a[0] in ("p", )} or {
                a for a in at if a[0] == "fn"}
            name = f"content of a known artifact: {F.plain(cx.P.outer(f).q)}"

            def gives(g, c):
                """Values added to a list of blobs."""
                if c["op"] == "call" and c.get("o") is not None and last(
                        c) in ("emplace_back", "push_back", "insert",
                               "emplace") and strings(
                                   g.t(g.el.get(c["o"], {}))):
                    return list(c.get("a", ()))
                if (c["op"] == "ctor" and fn(c) ==
                        "AnalysedTarget::AnalysedTarget" or
                        c["op"] == "call" and last(c) == "make_shared" and
                        "AnalysedTarget" in g.t(c)):
                    return [a for a in c.get("a", ()) if strings(
                        g.t(g.el.get(a, {})))]
                return []

            vs = closure(cx, f, content if content is not None
                         else e["a"][0])
            head = cx.P.root(f, strip(f, content)) if content is not None \
                else None
            good = [(f, c) for c in f.elems()
                    if any(want <= cx.P.of(f, a) and (
                        head is None or head in closure(cx, f, a) or
                        cx.P.root(f, strip(f, a)) in vs)
                        for a in gives(f, c))]
            if not good:
                rep.ob(name, False,
                       f"{f.loc(e)}: the content of the known artifact is "
                       "not among the blobs of the target")
                continue
            ids = {c["i"] for _, c in good}
            spec = {
                "source": lambda f, e: False, "shallow": True,
                "explicit": True, "sink": lambda f, e, t: False,
                "effect": lambda g, c, f=f, e=e, ids=ids: (
                    "blob", ) if g is f and c["i"] in ids else (
                        "known", ) if g is f and c is e else ()}
            pol, outs, eng = T.run(fx, f, spec, None)
            bad = [o for o in outs if o.how == "ret" and
                   "known" in o.st.ts and "blob" not in o.st.ts]
            rep.ob(name, not bad, f"{f.loc(e)}: on some path the content of "
                   "the known artifact is not handed on",
                   f"{f.loc(e)}: content handed on")
    rep.count("known artifacts of rules", n, 2)


def strip(f, eid, n=0):
    """The object a value is read from: without calls of const methods."""
    while n < 20:
        n += 1
        e = f.el.get(eid)
        if e is None:
            return eid
        if e["op"] in ("cast", "ctor") and len(e.get("a", ())) == 1:
            eid = e["a"][0]
        elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
            eid = e["a"][0]
        elif e["op"] == "call" and e.get("o") is not None and not e.get(
                "a"):
            eid = e["o"]
        else:
            return eid
    return eid


def run(fx, rep):
    cx = Cx(fx, rep)
    rep.rule("the key of a stored object is the hash of the value that is "
             "stored")
    keys(cx)
    store_result(cx)
    pairs(cx)
    variants(cx)
    digests(cx)
    split(cx)
    known(cx)
