"""Entries of the store appear complete, in one step, and never change.

The functions that add an entry are evaluated down to the system calls, for
each kind of entry and both modes of storage, with the names of files followed
symbolically (the entry, the source given, files of one's own) together with
what has been done to the file behind each name."""
import re
import engine as E
import facts as F
import lib
import prov as PV

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "link(2), rename(2) and open(2) with O_EXCL are atomic; what was written "
    "successfully is what is read later (durability after a power failure "
    "is not considered)",
    "FileSystemManager::WriteFile and CopyFile fill the file they are given "
    "(failures: C01, C14)",
]
FILL = {"FileSystemManager::WriteFile": 1, "FileSystemManager::CopyFile": 1}
WRITE_BITS = 0o222


def fn(e):
    return F.plain(e.get("fn", ""))


def last(e):
    return fn(e).rsplit("::", 1)[-1]


def tagged(t):
    return E.AV(E.TOP, None, ("path", t))


def name_of(v):
    return v.tag[1] if v.tag and v.tag[0] == "path" else None


class Files(lib.EvalPolicy):
    """Events on named files. st.ts holds (what, name)."""
    max_depth = 9

    def __init__(self, cx, owner, first_wins, want):
        super().__init__()
        self.cx, self.owner, self.first = cx, owner, first_wins
        self.want = want            # what a published file must have had done
        self.bad = {}
        self.published = 0

    def note(self, f, e, text):
        self.bad.setdefault((f.key, e["i"], text), (f, e, text))

    def inline(self, eng, f, e, g, st, depth):
        return g.file.startswith("src/") and not g.q.startswith("Logger::") \
            and not F.plain(g.q).startswith(("TmpDir::", "System::"))

    def names(self, ts, n):
        """All names of the file behind a name."""
        out = {n}
        for x in ts:
            if x[0] == "link" and n in x[1:]:
                out |= set(x[1:])
        return out

    def has(self, ts, n, what):
        return any((what, k) in ts for k in self.names(ts, n))

    def publish(self, f, e, ts, s, how):
        self.published += 1
        if s is None and ("content", "tmp") in ts:
            s = "tmp"       # there is only one file of one's own
        ns = self.names(ts, s) if s else set()
        if s is None:
            self.note(f, e, "publishes a file of unknown origin")
            return
        if "entry" in ns:
            return
        if "src" in ns:
            if not self.owner:
                self.note(f, e, "publishes the file of somebody else, who "
                          "may still change it")
        elif not self.has(ts, s, "content"):
            self.note(f, e, "publishes a file that has not been completely "
                      "written")
        for w in self.want:
            if not self.has(ts, s, w):
                self.note(f, e, f"publishes a file before its {w} is set")
        if how == "rename" and self.first:
            self.note(f, e, "replaces an existing entry in a storage where "
                      "the first one wins")
        if how == "link" and self.first is False:
            self.note(f, e, "keeps an existing entry in a storage where the "
                      "last one wins")

    def change(self, f, e, ts, n, what):
        """Something is done to the file behind a name."""
        if n is None:
            return
        if n == "entry" or ("published", ) in ts and "entry" in self.names(
                ts, n):
            self.note(f, e, f"{what} an entry that is already visible")

    def two(self, st, yes, i=None):
        return [(E.TRUE, st.with_ts(yes)), (E.FALSE, st)]

    def ec(self, eng, f, e, st):
        """The error code a call fills in, if any."""
        for a in e.get("a", ()):
            if "error_code" in f.t(f.el.get(a, {})):
                return eng.path(f, a, st)
        return None

    def outcome(self, eng, f, e, st, ts, ok=E.UNK, fail=E.UNK):
        p = self.ec(eng, f, e, st)
        good, bad = st.with_ts(ts), st
        if p is not None:
            return [(ok, good.set(p, E.AV(E.ZERO))),
                    (fail, bad.set(p, E.AV(E.POS)))]
        return [(ok, good), (fail, bad)]

    def call(self, eng, f, e, st, depth):
        n, k = fn(e), last(e)
        a = e.get("a", ())
        ts = st.ts

        def at(j):
            return name_of(eng.val(f, a[j], st)) if j < len(a) else None
        if n.startswith("Logger::"):
            return [(E.UNK, st)]
        if k == "GetPath" and n.startswith("FileStorage"):
            return [(tagged("entry"), st)]
        if k == "CreateUniquePath":
            if at(0) == "entry":
                return [(E.AV(E.POS, None, ("path", "tmp")), st),
                        (E.V0, st)]
            return None
        if n == "TmpDir::Create" or k == "CreateTypedTmpDir":
            return [(E.AV(E.POS, None, ("tmpdir", )), st), (E.V0, st)]
        if n in ("TmpDir::GetPath", ):
            return [(E.AV(E.POS, None, ("tmpdir", )), st)]
        if k == "operator/" and len(a) == 2:
            l = eng.val(f, a[0], st)
            if l.tag and l.tag[0] == "tmpdir":
                return [(tagged("tmp"), st)]
            return [(E.UNK, st)]
        if e.get("o") is not None and k in ("c_str", "string", "native",
                                            "data", "get", "value",
                                            "lexically_normal"):
            v = eng.val(f, e["o"], st)
            if v.tag and v.tag[0] in ("path", "tmpdir"):
                return [(v, st)]
        if e["op"] == "ctor" and len(a) >= 1 and "filesystem::path" in n:
            v = eng.val(f, a[0], st)
            if v.tag and v.tag[0] in ("path", "tmpdir"):
                return [(v.but(al=None), st)]
        if n in FILL and len(a) > FILL[n]:
            t = at(FILL[n])
            self.change(f, e, ts, t, "writes")
            if self.cx.exe and t is not None and not (
                    len(a) > 2 and not eng.val(f, a[2], st).s & E.ZERO):
                self.note(f, e, "writes an executable through a descriptor "
                          "of this process, which a child may inherit")
            if t is None:
                return [(E.TRUE, st), (E.FALSE, st)]
            return self.two(st.with_ts(ts - {("content", t)}),
                            ts | {("content", t)})
        if k in ("create_hard_link", "link", "linkat") and (
                e.get("o") is None):
            s, d = at(0), at(1)
            if d == "entry":
                self.publish(f, e, ts, s, "link")
                new = ts | {("published", ), ("link", s, d)}
            elif d is not None and s is not None:
                new = ts | {("link", s, d)}
                if ("content", s) in ts or s == "src":
                    new = new | {("content", d)} if s != "src" else new
            else:
                new = ts
            z = k != "create_hard_link"
            return self.outcome(eng, f, e, st, new,
                                E.const(0) if z else E.UNK,
                                E.const(-1) if z else E.UNK)
        if k in ("rename", "renameat", "renameat2") and e.get("o") is None:
            s, d = at(0), at(1)
            if d == "entry":
                self.publish(f, e, ts, s, "rename")
                new = ts | {("published", ), ("link", s, d)}
            else:
                new = ts
            if s == "entry":
                self.note(f, e, "moves an entry away")
            z = not n.startswith("std::filesystem")
            if not z:
                # throws when it fails
                return [(E.UNK, st.with_ts(new))]
            return [(E.const(0), st.with_ts(new)), (E.const(-1), st)]
        if k in ("copy_file", "copy") and "filesystem" in n:
            d = at(1)
            self.change(f, e, ts, d, "copies over")
            return self.two(st, ts | {("content", d)} if d else ts)
        if k in ("remove", "remove_all") and "filesystem" in n or \
                k == "unlink":
            d = at(0)
            if d == "entry":
                self.note(f, e, "removes an entry")
            z = k == "unlink"
            return [(E.const(0) if z else E.TRUE, st),
                    (E.const(-1) if z else E.FALSE, st)]
        if k in ("permissions", "chmod") and e.get("o") is None:
            d = at(0)
            self.change(f, e, ts, d, "changes the permissions of")
            m = eng.val(f, a[1], st).c
            if d is not None and isinstance(m, int):
                if m & WRITE_BITS:
                    self.note(f, e, "makes a file of the store writable")
                if bool(m & 0o111) != self.cx.exe:
                    self.note(f, e, "gives a file of the store the wrong "
                              "permission to execute")
            return [(E.const(0) if k == "chmod" else E.UNK, st.with_ts(
                ts | {("permission", d)} if d else ts))]
        if k in ("last_write_time", "utimensat"):
            d = at(0) if k[0] == "l" else at(1)
            if k[0] == "l" and len(a) < 2:
                return [(E.UNK, st)]
            self.change(f, e, ts, d, "changes the time of")
            new = ts | {("time", d)} if d else ts
            return [(E.const(0), st.with_ts(new)), (E.const(-1), st)] \
                if k[0] == "u" else [(E.UNK, st.with_ts(new))]
        if k in ("is_symlink", ) and "filesystem" in n:
            return [(E.FALSE, st), (E.TRUE, st)]
        if k in ("is_regular_file", "exists", "is_directory") and \
                "filesystem" in n:
            d = at(0)
            if k == "is_regular_file" and d == "entry":
                return [(E.TRUE, st.with_ts(ts | {("seen", )})),
                        (E.FALSE, st)]
            return [(E.TRUE, st), (E.FALSE, st)]
        if k in ("status", "symlink_status") and "filesystem" in n:
            v = eng.val(f, a[0], st)
            return [(v.but(al=None), st)]
        if k in ("basic_ofstream", "basic_fstream") and e["op"] == "ctor" or \
                k in ("fopen", "open", "creat", "truncate"):
            d = at(0)
            self.change(f, e, ts, d, "opens for writing")
        if k == "mkstemp":
            p = eng.path(f, a[0], st)
            v = eng.val(f, a[0], st)
            good = st.with_ts(ts | {("content", "tmp")})
            if p is not None:
                good = good.set(p, v.but(tag=("path", "tmp"), s=E.POS))
            return [(E.AV(E.POS, None, ("fd", )), good), (E.const(-1), st)]
        if k == "write" and len(a) == 3:
            return [(E.AV(E.POS), st), (E.const(-1), st.with_ts(
                ts - {("content", "tmp")}))]
        if k == "close" and len(a) == 1:
            return [(E.const(0), st), (E.const(-1), st.with_ts(
                ts - {("content", "tmp")}))]
        if "filesystem::operator|" in n and len(a) == 2:
            x, y = (eng.val(f, i, st).c for i in a)
            if isinstance(x, int) and isinstance(y, int):
                r = E.const(x | y)
                if k == "operator|=":
                    p = eng.path(f, a[0], st)
                    if p is not None:
                        st = eng.assign(f, p, r, st)
                return [(r, st)]
            if k == "operator|=":
                p = eng.path(f, a[0], st)
                if p is not None:
                    st = st.kill(p)
            return [(E.UNK, st)]
        return None


class Cx:

    def __init__(self, fx):
        self.fx = fx
        self.exe = False


def run_one(cx, rep, f, env, owner, first, want, what):
    pol = Files(cx, owner, first, want)
    eng = E.Engine(cx.fx, pol)
    outs = eng.run(f, E.State(env, frozenset()))
    bad = sorted(pol.bad.values(), key=lambda x: (x[0].key, x[1]["i"]))
    rep.ob(f"{what}", not bad,
           "; ".join(f"{b[0].loc(b[1])}: {b[2]}" for b in bad[:3]),
           f"{f.loc()}: {what}")
    wins = [o for o in outs if o.how == "ret" and o.val.s & E.POS]
    rep.ob(f"can publish: {what}", any(
        ("published", ) in o.st.ts for o in wins) and pol.published,
        f"{f.loc()}: never publishes an entry")
    lost = [o for o in wins if ("published", ) not in o.st.ts and
            ("seen", ) not in o.st.ts]
    rep.ob(f"success means there is an entry: {what}", not lost,
           f"{f.loc()}: success although no entry was published or seen")
    return pol


def storages(cx, rep):
    fx = cx.fx
    n = 0
    for f in fx.funcs():
        if F.plain(f.q) not in ("FileStorage::AddFromFile",
                                "FileStorage::AddFromBytes"):
            continue
        m = re.search(r"<ObjectType::(\w+), StoreMode::(\w+), (\w+)", f.q)
        if m is None:
            raise F.AnalysisError("instantiation of " + f.q)
        first = m.group(2) == "FirstWins"
        cx.exe = m.group(1) == "Executable"
        epoch = m.group(3) == "true"
        env = {}
        paths = [p for p in f.params if "filesystem::path" in p[2]]
        for p in paths:
            env[p[0]] = tagged("src")
        bools = [p for p in f.params if p[2] == "bool"]
        for own in ((True, False) if bools else (False, )):
            for p in bools:
                env[p[0]] = E.TRUE if own else E.FALSE
            n += 1
            want = ["permission"] + (["time"] if epoch else [])
            run_one(cx, rep, f, env, own, first, want,
                    f"{F.plain(f.q)}, {'executable' if cx.exe else 'file'}, "
                    f"{'first' if first else 'last'} wins"
                    f"{', owner' if own else ''}")
    rep.count("ways to add an entry", n, 6)


def single_files(cx, rep):
    """Functions that replace one file."""
    n = 0
    for q, idx in (("StorageUtils::WriteTreeIDFile", 0),
                   ("FileSystemAtomic::WriteFile", 0)):
        for f in cx.fx.named(q):
            cx.exe = False
            n += 1
            run_one(cx, rep, f, {f.params[idx][0]: tagged("entry")}, False,
                    None, [], q)
    rep.count("files that are replaced", n, 1)


def reach(cx, P, f, wanted, once=True, depth=0):
    """The functions among wanted whose results are in what f returns
    (once: also results computed only the first time)."""
    dep = {}

    def put(a, b):
        dep.setdefault(a, set()).add(b)

    def base(g, i, n=0):
        """The variable at the bottom of an expression."""
        while n < 40:
            n += 1
            e = g.el.get(i, {})
            if e.get("op") == "ref" and e.get("k") in ("l", "p"):
                return e["v"]
            k = (e.get("opk") or "") if e.get("op") == "call" else ""
            if e.get("op") == "call" and e.get("o") is not None:
                i = e["o"]
            elif k == "<<" or e.get("op") in ("cast", "un", "mat"):
                i = (e.get("a") or [None])[0]
            elif e.get("op") == "mem":
                i = e.get("b")
            else:
                return None
        return None
    out = set()
    for g in P.nest(f):
        me = (g.key, "ret")
        for e in g.elems():
            i = (g.key, e["i"])
            for a in e.get("a", ()):
                put(i, (g.key, a))
            for x in ("o", "b", "c"):
                if isinstance(e.get(x), int):
                    put(i, (g.key, e[x]))
            if e["op"] == "ref" and "v" in e:
                put(i, ("v", e["v"]))
            elif e["op"] == "decl":
                for d in e["d"]:
                    if "i" in d and (once or d.get("st") != 1):
                        put(("v", d["v"]), (g.key, d["i"]))
            elif e["op"] == "asg":
                v = base(g, e["a"][0])
                if v:
                    put(("v", v), (g.key, e["a"][1]))
            elif e["op"] == "ret":
                put(me, i)
            elif e["op"] in ("call", "ctor"):
                if last(e) in wanted:
                    put(i, ("fn", last(e)))
                h = e.get("fk") and cx.fx.has(e["fk"]) and cx.fx.func(e["fk"])
                if h and h.file.startswith("src/") and depth < 4:
                    for w in reach(cx, P, h, wanted, once, depth + 1):
                        put(i, ("fn", w))
                if e["op"] == "call" and not e.get("cst"):
                    tgt = e.get("o")
                    if tgt is None and e.get("a"):
                        tgt = e["a"][0]
                    v = base(g, tgt) if tgt is not None else None
                    if v:
                        for a in e.get("a", ()):
                            put(("v", v), (g.key, a))
                        put(("v", v), i)
            elif e["op"] == "lambda" and e.get("fk"):
                put(i, (e["fk"], "ret"))
    seen, todo = set(), [(f.key, "ret")]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "fn":
            out.add(x[1])
        todo += dep.get(x, ())
    return out


PROCESS = {"getpid", "mkstemp", "mkdtemp", "CreateUUID"}
THREAD = {"get_id", "gettid", "pthread_self", "mkstemp", "mkdtemp",
          "CreateUUID"}


def unique(cx, rep):
    """Names of files of one's own differ between processes and threads."""
    n = 0
    P = PV.Prov(cx.fx)
    for f in cx.fx.funcs():
        if f.q != "CreateUniquePath":
            continue
        n += 1
        rep.ob("own name of a process", reach(cx, P, f, PROCESS),
               f"{f.loc()}: the name is the same in all processes")
        rep.ob("own name of a thread", reach(cx, P, f, THREAD, False),
               f"{f.loc()}: the name is the same in all threads")
    rep.count("sources of names", n, 1)


def run(fx, rep):
    cx = Cx(fx)
    for r in ("an entry is published by link or rename from a complete file "
              "of one's own on which permissions and time are set",
              "nothing is done to a file once it is visible as an entry",
              "the first (last) writer wins, as the storage says",
              "success is reported only if the entry was published or seen"):
        rep.rule(r)
    storages(cx, rep)
    single_files(cx, rep)
    unique(cx, rep)
