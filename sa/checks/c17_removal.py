"""What garbage collection and compaction remove from the storage may be
removed.

Every removal and every renaming in the modules of the storage that delete
(compactifier, collector of repository roots) is examined: on each path to it
the reasons that make it safe have been established, and what is removed is
the entry that was looked at."""
import re

import engine as E
import facts as F
import lib
import prov as PV
import taint as T

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "advisory locks (flock) are respected by all processes",
    "the collector of the build storage and the uplinking before it are not "
    "part of the analysed build",
]
REMOVE = ("RemoveFile", "RemoveDirectory", "remove", "remove_all", "unlink",
          "rmdir")
FILES = ("src/buildtool/storage/compactifier.cpp",
         "src/buildtool/storage/repository_garbage_collector.cpp",
         "src/buildtool/storage/compactification_task.cpp")


def fn(e):
    return F.plain(e.get("fn", ""))


def last(e):
    return fn(e).rsplit("::", 1)[-1]


WRAP = {}       # functions that remove (rename) what they are given


def removes(f, e):
    return removed(f, e) is not None


def removed(f, e):
    """What is removed here, if something is."""
    if e["op"] != "call":
        return None
    if last(e) in REMOVE and e.get("a") and (
            fn(e).startswith(("FileSystemManager::", "std::filesystem::")) or
            "::" not in fn(e)):
        return e["a"][0]
    w = WRAP.get(("rm", e.get("fk")))
    return e["a"][w[0]] if w and len(e.get("a", ())) > w[0] else None


def renames(f, e):
    return moved(f, e) is not None


def moved(f, e):
    if e["op"] != "call":
        return None
    if last(e) in ("Rename", "rename") and len(e.get("a", ())) >= 2:
        return e["a"][0], e["a"][1]
    w = WRAP.get(("mv", e.get("fk")))
    return (e["a"][w[0]], e["a"][w[1]]) if w and len(
        e.get("a", ())) > max(w) else None


def wrappers(cx):
    WRAP.clear()
    more = True
    while more:
        more = False
        for g in cx.fx.funcs():
            if g.file not in FILES or g.kind == "lambda":
                continue
            ps = [p[0] for p in g.params]
            for f in cx.P.nest(g):
                for e in f.elems():
                    for kind, args in (("rm", (removed(f, e), )),
                                       ("mv", moved(f, e) or (None, ))):
                        vs = [var_of(cx, f, a) if a is not None else None
                              for a in args]
                        if all(v in ps for v in vs) and (
                                kind, g.key) not in WRAP:
                            WRAP[(kind, g.key)] = [ps.index(v) for v in vs]
                            more = True


class Cx:

    def __init__(self, fx, rep):
        self.fx, self.rep = fx, rep
        self.P = PV.Prov(fx)
        self.sites = {}

    def seen(self, f, e, by):
        self.sites.setdefault((f.key, e["i"]), set()).add(by)


def guarded(cx, g, what, assume, sink, asked, text, need=True):
    """With the answers of assume, no sink is reached after something was
    asked; and something is asked on every path to a sink."""
    used = [False]

    def ass(f, e):
        r = assume(f, e)
        if r is not None:
            used[0] = True
        return r
    spec = {
        "source": lambda f, e: False, "shallow": False, "explicit": True,
        "sink": lambda f, e, t: False, "assume": ass,
        "effect": lambda f, e: ("asked", ) if asked(f, e) else (),
        "esink": lambda eng, f, e, st: sink(f, e)}
    pol, outs, eng = T.run(cx.fx, g, spec, None)
    hits = sorted(pol.hits.values(), key=lambda x: x[1]["i"])
    for f, e in hits:
        cx.seen(f, e, what)
    cx.rep.ob(f"{what}: {F.plain(g.q)}", not hits,
              f"{hits[0][0].loc(hits[0][1])}: {text}" if hits else "",
              f"{g.loc()}: {what}")
    if need and not used[0]:
        cx.rep.ob(f"{what}, asked: {F.plain(g.q)}", False,
                  f"{g.loc()}: it is never asked whether {text}")
    # reachable at all
    return hits


def sinks_of(cx, g, pred):
    return [(f, e) for f in cx.P.nest(g) for e in f.elems() if pred(f, e)]


def entry_functions(cx, name):
    return [g for g in cx.fx.funcs() if g.kind != "lambda" and
            F.plain(g.q).replace("(anonymous namespace)::", "") == name]


# ---------------------------------------------------------------- compactifier
def split_large(cx):
    """An object is removed only after it was split into at least two parts
    that are stored together with their list."""
    gs = entry_functions(cx, "SplitLarge")
    n = 0
    for g in gs:
        rm = sinks_of(cx, g, removes)
        if not rm:
            continue
        n += 1

        def is_split(f, e):
            return e["op"] == "call" and last(e) in ("SplitBlob",
                                                     "SplitTree", "Split")
        guarded(cx, g, "object that could not be split",
                lambda f, e: E.AV(E.ZERO) if is_split(f, e) else None,
                removes, is_split,
                "an object is removed although it could not be split")

        def one(f, e):
            if e["op"] == "call" and last(e) == "size" and "vector" in \
                    str(f.t(f.el.get(e.get("o"), {}))):
                return E.const(1)
            if e["op"] == "call" and last(e) == "empty" and "vector" in \
                    str(f.t(f.el.get(e.get("o"), {}))):
                return E.FALSE
            return None
        guarded(cx, g, "object that consists of one part", one, removes,
                lambda f, e: False,
                "an object is removed although it has no list of parts")
        guarded(cx, g, "object without digest",
                lambda f, e: E.AV(E.ZERO) if e["op"] == "call" and last(
                    e) in ("HashFileAs", "HashDataAs") else None,
                removes, lambda f, e: False,
                "an object is removed although its digest is not known")
        for f, e in rm:
            a = cx.P.of(f, removed(f, e))
            for h in cx.P.nest(g):
                for c in h.elems():
                    if is_split(h, c):
                        d = cx.P.of(h, c["a"][0])
                        same = {x[:3] for x in a if x[0] == "p"} <= {
                            x[:3] for x in d if x[0] == "p"}
                        cx.rep.ob(
                            "what is split is what is removed",
                            same and any(x[0] == "fn" and x[1].endswith(
                                "HashFileAs") for x in d),
                            f"{f.loc(e)}: the object that is removed is not "
                            "the one that was split")
            v = var_of(cx, f, removed(f, e))
            hv = set()
            for h in cx.P.nest(g):
                for c in h.elems():
                    if c["op"] == "call" and last(c) == "HashFileAs":
                        hv.add(var_of(cx, h, c["a"][1]))
            cx.rep.ob("the file that was hashed is removed", v in hv,
                      f"{f.loc(e)}: removes another file than the one the "
                      "digest was computed from")
        kinds = {c["fn"] for h in cx.P.nest(g) for c in h.elems()
                 if c["op"] == "call" and is_split(h, c)}
        for h in cx.P.nest(g):
            live = [c for c in h.elems() if is_split(h, c)]
            tree = "ObjectType::Tree" in g.q or tree_instance(cx, g)
            for o in E.Engine(cx.fx, lib.EvalPolicy(
                    lambda eng, f, e, st: ("split", last(e)) if is_split(
                        f, e) else None)).run(g, E.State({}, frozenset())) \
                    if h is g and live else ():
                for x in o.st.ts:
                    if isinstance(x, tuple) and x[0] == "split":
                        cx.rep.ob("split as what it is",
                                  (x[1] == "SplitTree") == bool(tree),
                                  f"{g.loc()}: {x[1]} is used for "
                                  f"{'trees' if tree else 'files'}")
        for h in cx.P.nest(g):
            for c in h.elems():
                if c["op"] == "call" and last(c) == "HashFileAs":
                    t = tree_of_hash(cx, c)
                    if t is not None:
                        cx.rep.ob("hashed as what it is",
                                  t == bool(tree_instance(cx, g)),
                                  f"{h.loc(c)}: the digest is computed for "
                                  "another kind of object")
    if n < 1:
        raise F.AnalysisError("anchor vanished: SplitLarge")
    cx.rep.count("split tasks", n, 3)


def tree_of_hash(cx, c):
    k = c.get("fk")
    if not k or not cx.fx.has(k):
        return None
    for e in cx.fx.func(k).elems():
        if e["op"] == "call" and last(e) == "IsTreeObject" and "val" in e:
            return bool(e["val"])
    return None


def tree_instance(cx, g):
    t = lib.targ(g.key, "ObjectType")
    tree = {c[0].rsplit("::", 1)[-1]: c[1]
            for c in lib.enum(cx.fx, "ObjectType")["cs"]}["Tree"]
    return t == tree


def var_of(cx, f, eid, n=0):
    while n < 20:
        n += 1
        e = f.el.get(eid)
        if e is None:
            return None
        if e["op"] == "ref":
            return e.get("v")
        if e["op"] in ("cast", "ctor") and len(e.get("a", ())) == 1:
            eid = e["a"][0]
        elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
            eid = e["a"][0]
        elif E.is_deref_call(e):
            eid = e["o"]
        else:
            return None
    return None


def vars_in(cx, f, eid):
    """Variables a value is computed from, through local definitions and
    captures."""
    fr = cx.P.frame(f)
    out, todo, seen = set(), [(f, eid)], set()
    while todo:
        g, i = todo.pop()
        if i is None or i < 0 or (g.key, i) in seen:
            continue
        seen.add((g.key, i))
        e = g.el.get(i)
        if e is None:
            continue
        if e["op"] == "ref" and e.get("k") not in ("f", "e") and \
                e["v"] not in out:
            out.add(e["v"])
            todo.extend(fr.get(e["v"], ()))
        todo.extend((g, c) for c in E.Engine.children(e))
    return out


def lits_in(f, eid):
    out, todo, seen = set(), [eid], set()
    while todo:
        i = todo.pop()
        if i is None or i < 0 or i in seen:
            continue
        seen.add(i)
        e = f.el.get(i)
        if e is None:
            continue
        if e["op"] == "str":
            out.add(e.get("val"))
        todo.extend(E.Engine.children(e))
    return out


def remove_invalid(cx):
    """Only entries whose name is not one of an object are removed."""
    n = 0
    for g in entry_functions(cx, "RemoveInvalid"):
        rm = sinks_of(cx, g, removes)
        if not rm:
            continue
        n += 1

        # names of the right length that are hexadecimal stay
        def valid(f, e):
            if e["op"] == "call" and last(e) in ("FromHexString",
                                                 "IsHexString"):
                return E.TRUE if last(e) == "IsHexString" else E.AV(E.POS)
            return None

        envs = {}

        def esink(eng, f, e, st):
            # what a closure captures has the value it has where the closure
            # is handed over
            if last(e) == "ReadDirectory":
                envs.update({k: v for k, v in st.env.items()
                             if isinstance(k, str) and v.c is not None})
            return removes(f, e)
        spec = {
            "source": lambda f, e: False, "explicit": True,
            "sink": lambda f, e, t: False,
            "assume": lambda f, e: sizes(cx, f, e) or valid(f, e),
            "effect": lambda f, e: (),
            "esink": esink}
        pol, outs, eng = T.run(cx.fx, g, spec, None)
        hits = list(pol.hits.values())
        for f, e in rm:
            cx.seen(f, e, "valid name")
        for h in cx.P.nest(g):
            if h is g:
                continue
            p2, o2, e2 = T.run(cx.fx, h, spec, None, envs)
            hits += list(p2.hits.values())
        cx.rep.ob(f"valid entries stay: {F.plain(g.q)}", not hits,
                  f"{hits[0][0].loc(hits[0][1])}: removes an entry with the "
                  "name of an object" if hits else "",
                  f"{g.loc()}: valid names are kept")
    if n < 1:
        raise F.AnalysisError("anchor vanished: RemoveInvalid")
    cx.rep.count("removals of invalid entries", n, 3)


KDIR = 2
HASH = 40


def sizes(cx, f, e):
    """A world where the names have the right length."""
    if e["op"] != "call":
        return None
    if last(e) == "GetHashLength":
        return E.const(HASH)
    if last(e) in ("size", "length") and e.get("o") is not None and \
            "basic_string" in str(f.t(f.el.get(e["o"], {}))):
        a = cx.P.of(f, e["o"])
        # the name of the directory or the one of an entry in it
        v = vars_in(cx, f, e["o"])
        outer = cx.P.outer(f)
        if f is outer:
            return E.const(KDIR)
        own = {p[0] for p in f.params}
        if v & own:
            return E.const(HASH - KDIR)
        return E.const(KDIR)
    return None


def remove_spliced(cx):
    """A file is removed as spliced only for an entry of the same name in the
    storage of large entries."""
    n = 0
    for g in entry_functions(cx, "RemoveSpliced"):
        rm = sinks_of(cx, g, removes)
        if not rm:
            continue
        n += 1
        for f, e in rm:
            v = vars_in(cx, f, removed(f, e))
            ok = False
            for h in cx.P.nest(g):
                if h is g:
                    continue
                ps = [p[0] for p in h.params]
                if ps and ps[0] in v and called_by_readdir(cx, g, h):
                    ok = True
            cx.seen(f, e, "spliced")
            cx.rep.ob(f"spliced file has a large entry: {F.plain(g.q)}", ok,
                      f"{f.loc(e)}: what is removed does not have the name "
                      "of an entry of the large storage",
                      f"{f.loc(e)}: named after an entry of the large "
                      "storage")
        for f in cx.P.nest(g):
            for e in f.elems():
                if e["op"] == "call" and last(e) == "ReadDirectory":
                    ok = large_root(cx, f, e["a"][0])
                    cx.rep.ob("large entries are listed", ok,
                              f"{f.loc(e)}: the directory that is listed is "
                              "not the one of the large entries")
    if n < 1:
        raise F.AnalysisError("anchor vanished: RemoveSpliced")
    cx.rep.count("removals of spliced files", n, 1)
    # the kinds of storage: large trees only take trees, large files files
    for g in entry_functions(cx, "RemoveSpliced"):
        m = re.search(r"<#V\$@E@ObjectType(\d+)#p\d+((?:VS0_\d+)+)>", g.key)
        if not m:
            continue
        names = kinds(cx)
        large = names.get(int(m.group(1)))
        ks = {names.get(int(x)) for x in re.findall(r"VS0_(\d+)",
                                                    m.group(2))}
        want = {"Tree"} if large == "Tree" else {"File", "Executable"}
        cx.rep.ob(f"kinds of spliced files: {large}", ks <= want,
                  f"{g.loc()}: entries of large {large} objects cause the "
                  f"removal of {sorted(ks)}",
                  f"{g.loc()}: large {large}: {sorted(ks)}")


def kinds(cx):
    return {c[1]: c[0].rsplit("::", 1)[-1]
            for c in lib.enum(cx.fx, "ObjectType")["cs"]}


def tasks_of_kinds(cx):
    """The task for a kind of objects is the instance for that kind, and is
    applied to entries of the storage of that kind."""
    want = {"f_task": {"File", "Symlink"}, "x_task": {"Executable"},
            "t_task": {"Tree"}}
    names = kinds(cx)
    n = 0
    for f in cx.fx.funcs():
        for e in f.elems():
            if e["op"] != "list" or "t_task" not in e.get("fs", ()):
                continue
            for fld, a in zip(e["fs"], e["a"]):
                if fld not in want:
                    continue
                for k in instances(cx, f, a):
                    t = lib.targ(k, "ObjectType")
                    if t is None:
                        continue
                    n += 1
                    cx.rep.ob(f"{fld} of {F.plain(f.q)}",
                              names.get(t) in want[fld],
                              f"{f.loc(e)}: {fld} is given the function for "
                              f"{names.get(t)} objects",
                              f"{f.loc(e)}: {fld}: {names.get(t)}")
    cx.rep.count("tasks for kinds", n, 6)
    m = 0
    for g in cx.fx.funcs():
        if g.kind == "lambda" or not g.file.startswith(
                "src/buildtool/storage/compact"):
            continue
        ps = [p for p in g.params if p[2] == "ObjectType"]
        if len(ps) != 1 or "function<bool" not in g.ret:
            continue
        m += 1
        for v, k in names.items():
            if k == "Symlink":
                continue
            got = set()
            for o in E.Engine(cx.fx, lib.EvalPolicy()).run(
                    g, E.State({ps[0][0]: E.const(v)}, frozenset())):
                if o.how == "ret" and o.val.al:
                    got.add(o.val.al.rsplit(".", 1)[-1])
            got &= set(want)
            cx.rep.ob(f"task for {k}", all(k in want[x] for x in got),
                      f"{g.loc()}: {k} objects are given to "
                      f"{sorted(got)}", f"{g.loc()}: {k}: {sorted(got)}")
    cx.rep.count("choices of a task", m, 0)


def instances(cx, f, eid):
    """Keys of the functions a value refers to."""
    out, todo, seen = set(), [(f, eid)], set()
    while todo:
        g, i = todo.pop()
        if i is None or i < 0 or (g.key, i) in seen:
            continue
        seen.add((g.key, i))
        e = g.el.get(i)
        if e is None:
            continue
        if e["op"] == "ref" and e.get("k") == "f":
            out.add(e.get("fk"))
        elif e["op"] == "lambda" and cx.fx.has(e.get("fk")):
            h = cx.fx.func(e["fk"])
            out |= {c.get("fk") for c in h.elems() if c["op"] == "call"}
        todo.extend((g, c) for c in E.Engine.children(e))
    return {k for k in out if k}


def called_by_readdir(cx, g, h):
    for f in cx.P.nest(g):
        for e in f.elems():
            if e["op"] == "call" and last(e) == "ReadDirectory":
                for a in e.get("a", ())[1:]:
                    l = cx.P.lam_of(f, a)
                    if l is h:
                        return True
                    els = vars_in(cx, f, a)
                    for e2 in f.elems():
                        if e2["op"] == "decl":
                            for d in e2["d"]:
                                if d["v"] in els and d.get("i") is not None \
                                        and lam_in(cx, f, d["i"]) is h:
                                    return True
    return False


def lam_in(cx, f, eid):
    todo, seen = [eid], set()
    while todo:
        i = todo.pop()
        if i is None or i < 0 or i in seen:
            continue
        seen.add(i)
        e = f.el.get(i)
        if e is None:
            continue
        if e["op"] == "lambda":
            k = e.get("fk")
            return cx.fx.func(k) if k and cx.fx.has(k) else None
        todo.extend(E.Engine.children(e))
    return None


def large_root(cx, f, eid):
    fr = cx.P.frame(f)
    todo, seen = [(f, eid)], set()
    while todo:
        g, i = todo.pop()
        if i is None or i < 0 or (g.key, i) in seen:
            continue
        seen.add((g.key, i))
        e = g.el.get(i)
        if e is None:
            continue
        if e["op"] == "call" and last(e) == "StorageRoot":
            a = e.get("a", ())
            if len(a) < 2:
                return False
            x = g.el.get(a[1], {})
            n = 0
            while x.get("op") == "cast" and n < 5:
                x, n = g.el.get(x["a"][0], {}), n + 1
            return bool(x.get("val"))
        if e["op"] == "ref" and e.get("k") not in ("f", "e"):
            todo.extend(fr.get(e["v"], ()))
        todo.extend((g, c) for c in E.Engine.children(e))
    return False


# ------------------------------------------------------------------ collector
def collector(cx):
    """Repository roots: generations are moved only under the exclusive
    lock, removed only under the shared lock and only after they were moved
    away; a failed step ends the collection."""
    g = lib.one(cx.fx, "RepositoryGarbageCollector::TriggerGarbageCollection")
    for kind, sink, text in (
            ("ExclusiveLock", renames,
             "generations are moved although the exclusive lock could not "
             "be taken"),
            ("SharedLock", removes,
             "a directory is removed although the lock could not be taken")):
        guarded(cx, g, f"{kind} not taken",
                lambda f, e, kind=kind: E.AV(E.ZERO) if e["op"] == "call" and
                last(e) == kind else None,
                lambda f, e, sink=sink: sink(f, e), lambda f, e: False, text)
    lock_modes(cx)
    # held: typestate over the scopes of the lock variables
    held(cx, g)
    # what is removed is the directory for removal
    for f in cx.P.nest(g):
        for e in f.elems():
            if removes(f, e):
                a = cx.P.of(f, removed(f, e))
                gen = any(x[0] == "fn" and x[1].endswith(
                    "RepositoryGenerationRoot") for x in a)
                pre = prefix(cx, f, removed(f, e))
                cx.seen(f, e, "collector")
                cx.rep.ob("only what was moved away is removed",
                          pre and not gen,
                          f"{f.loc(e)}: removes something else than the "
                          "directory the generations were moved to")
            if renames(f, e):
                src = cx.P.of(f, moved(f, e)[0])
                dst = cx.P.of(f, moved(f, e)[1])
                okd = any(x[0] == "fn" and x[1].endswith(
                    "RepositoryGenerationRoot") for x in dst) or prefix(
                        cx, f, moved(f, e)[1])
                oks = any(x[0] == "fn" and x[1].endswith(
                    "RepositoryGenerationRoot") for x in src)
                cx.rep.ob("generations are moved", oks and okd,
                          f"{f.loc(e)}: moves something else than a "
                          "generation")
    # no generation is moved onto one that is still there: the loop over the
    # generations goes from the oldest to the youngest
    order(cx, g)
    # the youngest generation survives if only the old ones are dropped
    drop_only(cx, g)


def lock_modes(cx):
    """SharedLock and ExclusiveLock lock one file, as they say."""
    n = 0
    for name, mode in (("SharedLock", 1), ("ExclusiveLock", 2)):
        for g in cx.fx.funcs():
            if g.kind == "lambda" or not F.plain(g.q).endswith("::" + name):
                continue
            got = flocks(cx, g, {})
            n += 1
            cx.rep.ob(f"mode of {F.plain(g.q)}", got == {mode},
                      f"{g.loc()}: the lock is taken with "
                      f"{sorted(map(str, got))} instead of "
                      f"{'LOCK_SH' if mode == 1 else 'LOCK_EX'}",
                      f"{g.loc()}: {name}")
            files = set()
            for f in cx.P.nest(g):
                for e in f.elems():
                    if e["op"] == "call" and last(e) == "Acquire":
                        files |= {x[1] for x in cx.P.of(f, e["a"][0])
                                  if x[0] == "fn"}
            cx.rep.ob(f"file of {F.plain(g.q)}", any(
                x.endswith("LockFilePath") for x in files),
                f"{g.loc()}: another file is locked")
    if n < 2:
        raise F.AnalysisError("anchor vanished: SharedLock, ExclusiveLock")
    cx.rep.count("lock modes", n, 2)


def flocks(cx, g, env):
    """Modes with which flock is called from a function."""
    got = set()

    class Pol(lib.EvalPolicy):
        max_depth = 4

        def inline(self, eng, f, e, h, st, depth):
            return last(e) == "Acquire" or h.file == f.file

        def call(self, eng, f, e, st, depth):
            if last(e) == "flock":
                got.add(eng.val(f, e["a"][1], st).c)
            return super().call(eng, f, e, st, depth)
    E.Engine(cx.fx, Pol()).run(g, E.State(dict(env), frozenset()))
    return got


def prefix(cx, f, eid):
    """The path contains the prefix of directories for removal."""
    fr = cx.P.frame(f)
    todo, seen = [(f, eid)], set()
    while todo:
        g, i = todo.pop()
        if i is None or i < 0 or (g.key, i) in seen:
            continue
        seen.add((g.key, i))
        e = g.el.get(i)
        if e is None:
            continue
        if e["op"] == "str" and "remove-me" in str(e.get("val")):
            return True
        if e["op"] == "ref" and e.get("k") not in ("f", "e"):
            v = cx.fx.vars.get(e["v"])
            if v and any(x["op"] == "str" and "remove-me" in str(
                    x.get("val")) for x in v["e"]):
                return True
            todo.extend(fr.get(e["v"], ()))
        todo.extend((g, c) for c in E.Engine.children(e))
    return False


def held(cx, g):
    """Typestate: the lock variable in whose scope an element stands."""
    fx = cx.fx

    class Pol(lib.EvalPolicy):

        def __init__(self):
            super().__init__()
            self.bad = {}

        def elem(self, eng, f, e, st):
            if e["op"] == "decl":
                ts = st.ts
                for d in e["d"]:
                    i = d.get("i")
                    k = lock_kind(cx, f, i) if i is not None else None
                    if k:
                        ts = ts | {("held", d["v"], k)}
                if ts != st.ts:
                    return [st.with_ts(ts)]
            if e["op"] in ("dtor", "life", "end", "destroy"):
                v = e.get("v")
                ts = frozenset(x for x in st.ts if not (
                    isinstance(x, tuple) and x[1] == v))
                if ts != st.ts:
                    return [st.with_ts(ts)]
            return None

        def call(self, eng, f, e, st, depth):
            kinds = {x[2] for x in st.ts if isinstance(x, tuple)}
            if renames(f, e) and "ExclusiveLock" not in kinds:
                self.bad[(f.key, e["i"])] = (f, e, "without the exclusive "
                                             "lock")
            if removes(f, e) and not kinds:
                self.bad[(f.key, e["i"])] = (f, e, "without a lock")
            if fn(e) in ("std::optional::reset", ) or last(e) == "reset":
                v = var_of(cx, f, e.get("o"))
                ts = frozenset(x for x in st.ts if not (
                    isinstance(x, tuple) and x[1] == v))
                if ts != st.ts:
                    return [(E.UNK, st.with_ts(ts))]
            if last(e) in ("SharedLock", "ExclusiveLock"):
                return [(E.UNK, st)]
            return None
    pol = Pol()
    E.Engine(fx, pol).run(g, E.State({}, frozenset()))
    bad = list(pol.bad.values())
    cx.rep.ob("locks are held", not bad,
              f"{bad[0][0].loc(bad[0][1])}: {bad[0][2]}" if bad else "",
              f"{g.loc()}: locks held at moves and removals")


def lock_kind(cx, f, i):
    todo, seen = [i], set()
    while todo:
        j = todo.pop()
        if j is None or j < 0 or j in seen:
            continue
        seen.add(j)
        e = f.el.get(j)
        if e is None:
            continue
        if e["op"] == "call" and last(e) in ("SharedLock", "ExclusiveLock"):
            return last(e)
        todo.extend(E.Engine.children(e))
    return None


def order(cx, g):
    """Evaluated for three generations: the sequence of moves."""
    seqs = moves(cx, g, False, 3)
    want_ok = True
    text = ""
    for seq in seqs:
        vac = set()
        for s, d in seq:
            if isinstance(d, int):
                if d not in vac:
                    want_ok = False
                    text = f"generation {s} is moved onto generation {d}"
                vac.discard(d)
            vac.add(s)
        got = {s for s, d in seq}
    cx.rep.ob("order of the moves", bool(seqs) and want_ok,
              f"{g.loc()}: {text or 'the moves are not understood'}",
              f"{g.loc()}: {sorted(seqs)[-1] if seqs else ''}")
    full = max(seqs, key=len, default=())
    cx.rep.ob("all generations move", {s for s, d in full} == {0, 1, 2} and
              all(d == (s + 1 if s < 2 else "away") for s, d in full),
              f"{g.loc()}: with three generations the moves are "
              f"{list(full)}")


def drop_only(cx, g):
    seqs = moves(cx, g, True, 3)
    full = max(seqs, key=len, default=())
    bad = [q for q in seqs for s, d in q if s == 0 or d != "away"]
    cx.rep.ob("the youngest generation is not dropped", bool(full) and
              not bad and {s for s, d in full} == {1, 2},
              f"{g.loc()}: when only old generations are dropped, the moves "
              f"are {list(bad[0] if bad else full)}")


def moves(cx, g, drop, n):
    """Sequences of moves (generation -> generation or 'away') when all steps
    succeed and all generations exist."""
    fx = cx.fx
    jd = [j for j, p in enumerate(g.params) if p[2] == "bool"]
    if len(jd) != 1:
        raise F.AnalysisError("anchor vanished: drop_only")

    class Pol(lib.EvalPolicy):
        max_depth = 3

        def call(self, eng, f, e, st, depth):
            k = last(e)
            if fn(e).startswith(("fmt::", "Logger::")):
                return [(E.UNK, st)]
            if k == "RepositoryGenerationRoot":
                a = eng.val(f, e["a"][0], st).c
                return [(E.AV(E.TOP, None, ("gen", a)), st)]
            if k in ("SharedLock", "ExclusiveLock", "CreateProcessUniqueId"):
                return [(E.AV(E.POS), st)]
            if k in ("IsDirectory", "RemoveDirectory", "RemoveFile",
                     "CreateDirectory", "has_value", "operator bool"):
                return [(E.TRUE, st)]
            if k == "Rename":
                t = [eng.val(f, a, st).tag for a in e["a"][:2]]
                t = [x[1] if x and x[0] == "gen" else "away" for x in t]
                m = sum(1 for x in st.ts if isinstance(x, tuple))
                return [(E.TRUE, st.with_ts(st.ts | {
                    ("mv", m, t[0], t[1])}))]
            if e["op"] == "call" and k == "operator/":
                return [(E.AV(E.TOP, None, ("away", 0)), st)]
            return None

        def inline(self, eng, f, e, g, st, depth):
            return g.file == f.file

        def keep(self, k, v):
            return True
    pol = Pol()
    eng = GenEngine(fx, pol, n)
    env = {g.params[jd[0]][0]: E.const(drop)}
    out = set()
    for o in eng.run(g, E.State(env, frozenset())):
        if o.how != "ret" or o.val.c == 0:
            continue
        out.add(tuple((x[2], x[3]) for x in sorted(
            (x for x in o.st.ts if isinstance(x, tuple)),
            key=lambda x: x[1])))
    return out


class GenEngine(E.Engine):
    counting = True

    def __init__(self, fx, pol, n):
        super().__init__(fx, pol)
        self.n = n

    def val(self, f, eid, st):
        v = super().val(f, eid, st)
        if not v.known() and eid is not None:
            e = f.el.get(eid)
            if e is not None and e["op"] == "mem" and e.get("m") == \
                    "num_generations":
                return E.const(self.n)
        return v


def run(fx, rep):
    cx = Cx(fx, rep)
    wrappers(cx)
    rep.rule("on each path to a removal the reasons that make it safe hold")
    split_large(cx)
    remove_invalid(cx)
    remove_spliced(cx)
    tasks_of_kinds(cx)
    collector(cx)
    n = 0
    for f in fx.funcs():
        if f.file in FILES:
            n += sum(1 for e in f.elems() if removes(f, e) or renames(f, e))
    rep.count("removals and moves", n, 8)
