"""Every access to state that threads share happens under the lock that
protects it, or is atomic.

The lock sets held at every access to a field of a class that owns a mutex
are computed along all paths (sa/locks.py). What is accepted without a lock is
listed below with its reason."""
import re

import engine as E
import facts as F
import locks as L

# classes that are shared by threads and protect their own state
OWNERS = {
    "NotificationQueue": "queues of tasks",
    "WaitableZeroCounter": "workload",
    "AsyncMapNode": "nodes of the maps",
    "AsyncMap": "the maps",
    "AsyncMapConsumer": "pending requests",
    "BuildMaps::Target::ResultTargetMap": "results of the analysis",
    "TaskTracker": "progress",
    "Profile": "profile",
    "GitHashesConverter": "pairs of hashes",
    "LogConfig::ConfigData": "log sinks",
    "MutexMap": "mutexes of log files",
    "CriticalGitOpGuard": "most recent operation on each repository",
    "atomic_shared_ptr": "shared value",
}
# classes whose numbers and flags are accessed by threads without a lock
LOCKFREE = {
    "Statistics", "JustMRStatistics", "DirectedAcyclicGraph::"
    "NodeTraversalState", "DependencyGraph::ActionNodeTraversalState",
    "DependencyGraph::ArtifactNodeTraversalState", "TaskSystem",
    "WaitableZeroCounter", "AsyncMapNode", "AtomicValue", "atomic",
}
SCALAR = re.compile(r"^(mutable )?(std::)?(bool|int|unsigned|long|size_t|"
                    r"std::size_t|u?int\d+_t|double|short|char)\b")

# (class, field or None, type pattern or None, kind or None, reason)
ACCEPTED = [
    ("AsyncMapNode", None, r"std::optional<", "R",
     "written once under the lock before the node is ready; consumers run "
     "after that"),
    ("AsyncMapNode", "key_", None, None, "never changed; the overload that "
     "moves it needs an expiring node"),
    ("LogConfig::ConfigData", None, r"LogLevel", None,
     "set once before threads are started"),
    ("Profile", None, r"nlohmann", None,
     "only the main thread describes the invocation"),
    ("Profile", None, None, "R", "read when the build has ended"),
    ("Profile", None, r"path", None, "set by the constructor"),
]


def names_of(fx):
    """plain name -> record"""
    out = {}
    for k, r in fx.records.items():
        out.setdefault(F.plain(k), r)
    return out


def is_const_method(f):
    return re.search(r"#1&{0,2}$", f.key) is not None


def accepted(cls, fld, ftype, kind):
    for c, n, t, k, why in ACCEPTED:
        if c == cls and (n is None or n == fld) and (
                k is None or k == kind) and (
                    t is None or re.search(t, ftype)):
            return why
    return None


def lock_for(x, need_x, partitioned):
    """A held lock that protects the access, else the reason."""
    best = "no lock is held"
    for var, c, mode, k in sorted(x.ts):
        if not k.startswith(x.cls + "::"):
            continue
        base = c.rsplit(".", 1)[0] if "." in c else c
        m = re.match(r"(.*)\.[A-Za-z_0-9]+(\[.*\])?$", c)
        base = m.group(1) if m else c
        if base != x.base and base == "this" and x.base.startswith("this"):
            best = f"the lock held is {c}"
            continue
        if partitioned and x.idx is not None:
            i = c[c.index("[") + 1:-1] if "[" in c else None
            if i != x.idx:
                best = f"the lock held is that of another part ({c})"
                continue
        if need_x and mode == "S":
            best = f"{c} is held in shared mode only"
            continue
        return None
    return best


def fields_rule(fx, rep, a):
    recs = names_of(fx)
    for c, what in OWNERS.items():
        if c not in recs:
            rep.note(f"{c} does not exist any more")
            continue
        rep.ob("owner:" + c, c in a.mclass,
               f"{c} ({what}) has no mutex any more", c + " owns a mutex")
    own = set(a.mclass)
    # fields that change after construction
    changed = set()
    for x in a.mem:
        if x.kind == "W" and x.f.kind not in ("ctor", "dtor"):
            changed.add((x.cls, x.field))
    part = {c: any(y["ty"].startswith("std::vector<std::") and
                   "mutex" in y["ty"] for y in r["fields"])
            for c, (r, ms) in a.mclass.items()}
    n = 0
    guarded = set()
    for x in a.mem:
        r, ms = a.mclass[x.cls]
        ft = [y["ty"] for y in r["fields"] if y["n"] == x.field]
        if not ft or L.SYNC.search(ft[0]) or x.field in ms and \
                "map" not in ft[0]:
            continue
        ft = ft[0]
        if x.f.kind in ("ctor", "dtor") or x.root.kind in ("ctor", "dtor"):
            continue
        if (x.cls, x.field) not in changed and x.kind != "A":
            continue
        ptr = re.sub(r"<.*", "", re.sub(
            r"^(mutable |const |gsl::not_null<|std::shared_ptr<|"
            r"std::unique_ptr<)+", "", ft)).strip("* >")
        if ptr in own or ptr == "Map" or ptr in ("TaskSystem",):
            continue        # protects itself
        if accepted(x.cls, x.field, ft, x.kind):
            continue
        if part[x.cls]:
            if x.kind == "R" and (is_const_method(x.root) or
                                  x.cls.endswith("ResultTargetMap")):
                continue    # the results are read when all work is done
            if x.how == "clear" and x.f.kind == "lambda":
                continue    # map not in use any more
            if x.kind == "R" and x.idx is None and x.how == "read" and \
                    not x.ts:
                continue    # the vector itself does not change
        if x.kind == "A":
            if not x.how.endswith(("store", "exchange")) and \
                    "compare_exchange" not in x.how:
                continue
            why = lock_for(x, False, part[x.cls])
        else:
            # each thread has an element of its own
            own_el = "thread::id" in ft and x.e["op"] != "mem"
            why = lock_for(x, x.kind == "W" and not own_el, part[x.cls])
        n += 1
        guarded.add((x.cls, x.field))
        fn = F.plain(x.root.short())
        rep.ob(f"field:{x.cls}::{x.field}:{x.kind}:{x.root.file}:"
               f"{fn if x.root.kind != 'lambda' else 'closure'}",
               why is None,
               f"{x.f.loc(x.e)}: {x.cls}::{x.field} is "
               f"{'changed' if x.kind == 'W' else 'accessed'} ({x.how}) in "
               f"{fn}: {why}",
               f"{x.cls}::{x.field} ({x.how}) in {fn} under lock")
    rep.count("accesses to guarded fields", n, 60)
    rep.count("guarded fields", len(guarded), 18)


def escapes_rule(fx, rep, a):
    """No reference to guarded state leaves the locked region."""
    changed = {(x.cls, x.field) for x in a.mem if x.kind == "W" and
               x.f.kind not in ("ctor", "dtor")}
    n = 0
    for f in fx.funcs():
        if not f.ret or not f.ret.rstrip().endswith(("&", "*")):
            continue
        for e in f.elems():
            if e["op"] != "ret" or not e.get("a"):
                continue
            m = direct_field(a, f, e["a"][0])
            if m is None or m not in changed:
                continue
            r = a.mclass[m[0]][0]
            ft = next((y["ty"] for y in r["fields"] if y["n"] == m[1]), "")
            if L.SYNC.search(ft) or "mutex" in ft or accepted(
                    m[0], m[1], ft, "R"):
                continue
            n += 1
            rep.ob(f"escape:{m[0]}::{m[1]}:{F.plain(f.short())}", False,
                   f"{f.loc(e)}: {F.plain(f.short())} returns a reference to "
                   f"{m[0]}::{m[1]}, which other threads change")
    for c, (r, ms) in a.mclass.items():
        rep.ob("escape-checked:" + c, True)


def direct_field(a, f, eid):
    e = f.el.get(eid)
    while e is not None:
        if e["op"] == "mem" and not e.get("isf"):
            cls, _, fld = F.plain(e.get("v") or "").rpartition("::")
            return (cls, fld) if cls in a.mclass else None
        if e["op"] in ("cast", "un") and e.get("a"):
            e = f.el.get(e["a"][0])
        elif e["op"] == "call" and e.get("fn") in E.PASS and e.get("a"):
            e = f.el.get(e["a"][0])
        else:
            return None
    return None


def stale_rule(fx, rep, a):
    """No decision taken in one locked region is acted on in another."""
    reg = {}
    for x in a.mem:
        if not x.ts or x.kind == "A":
            continue
        r, ms = a.mclass[x.cls]
        ft = next((y["ty"] for y in r["fields"] if y["n"] == x.field), "")
        if L.SYNC.search(ft) or x.field in ms:
            continue
        for h in x.ts:
            if h[3].startswith(x.cls + "::"):
                reg.setdefault((x.root.key, x.cls, x.field), {}).setdefault(
                    (h[0], h[2]), set()).add(
                        "U" if x.how in ("try_emplace",) else x.kind)
    for (rk, cls, fld), regions in reg.items():
        f = fx.func(rk)
        reads = [k for k, v in regions.items() if "R" in v]
        for k, v in regions.items():
            bad = "W" in v and "R" not in v and "U" not in v and any(
                q != k for q in reads)
            if bad and cls == "GitHashesConverter":
                continue    # the same pair is written again
            if bad and "thread::id" in next(
                    (y["ty"] for y in a.mclass[cls][0]["fields"]
                     if y["n"] == fld), ""):
                continue    # the key belongs to the current thread
            rep.ob(f"stale:{cls}::{fld}:{F.plain(f.short())}", not bad,
                   f"{f.file}: {F.plain(f.short())} looks at {cls}::{fld} "
                   "under one lock and changes it under another, without "
                   "looking again")


# ---------------------------------------------------------------- operations
GIT_OPEN = re.compile(r"^git_repository_(open|init)")
OUTPUT = re.compile(r"^(fopen|std::fopen|fputs|fprintf|fwrite|std::fputs|"
                    r"std::fprintf|fmt::print|fmt::v\d+::print|"
                    r"fmt::v\d+::vprint|std::fwrite)$")


def w_git(f, e):
    return e["op"] == "call" and GIT_OPEN.match(e.get("fn", "")) is not None \
        and "/file_system/" in f.file


def w_keep(f, e):
    return e["op"] == "call" and e.get("fn", "").endswith(
        "GitRepo::KeepTag")


def w_out(f, e):
    return e["op"] == "call" and f.file.endswith(
        ("log_sink_file.hpp", "log_sink_cmdline.hpp")) and (
            OUTPUT.match(e.get("fn", "")) is not None)


class Statics:

    def __init__(self, a):
        self.a = a

    def watch(self, f, e):
        if e["op"] != "ref" or e.get("k") not in ("s", "g") or e.get(
                "v", "").startswith("std::"):
            return False
        t = f.t(e)
        if t.startswith("const ") or L.SYNC.search(t) or "mutex" in t or \
                "MutexMap" in t:
            return False
        return self.a.usage(f, e)[0] == "W"


class Captures:
    """Variables that closures capture by reference."""

    def __init__(self, fx):
        self.of = {}
        for f in fx.funcs():
            for e in f.elems():
                if e["op"] != "lambda" or not e.get("fk"):
                    continue
                refs = {}
                for c in e.get("caps", ()):
                    if c.get("v") and c.get("ref"):
                        t = ""
                        if c.get("i") is not None:
                            t = f.t(f.el.get(c["i"], {}))
                        refs[c["v"]] = t
                self.of[e["fk"]] = (f, e, refs)

        self.runs = {}
        self.created = set()
        for f in fx.funcs():
            for e in f.elems():
                if e["op"] not in ("call", "ctor"):
                    continue
                fn = e.get("fn", "")
                if F.plain(fn) == "MutexMap::Create":
                    self.created |= {lambda_of(f, x) for x in e["a"]}
                if not (fn.endswith("::QueueTask") or fn.startswith(
                        "std::thread::thread") or (
                            fn.endswith(("emplace_back", "push_back")) and
                            "std::thread" in f.t(f.el.get(e.get("o"), {})))):
                    continue
                for x in e.get("a", ()):
                    k = lambda_of(f, x)
                    if k:
                        self.runs[k] = fn

    def watch(self, f, e):
        if e["op"] != "ref" or f.kind != "lambda":
            return False
        c = self.of.get(f.key)
        return c is not None and e.get("v") in c[2] and (
            f.key in self.runs or any("mutex" in t for t in c[2].values()))


def operations_rule(fx, rep, a, caps):
    n = {"git": 0, "tag": 0, "out": 0, "static": 0}
    for i, f, e, st, root, o in a.events:
        fn = F.plain(f.short()) if f.kind != "lambda" else "closure"
        if i == 0:
            ok = any(":" in h[3] for h in st.ts)
            n["git"] += 1
            rep.ob(f"git-open:{f.file}:{e['fn']}", ok,
                   f"{f.loc(e)}: {e['fn']} is called without the lock that "
                   "protects opening of repositories",
                   f"{e['fn']} in {fn} under static lock")
        elif i == 1:
            ps = {p[0].split("@")[0] for p in root.params
                  if "mutex" in p[2]}
            if not ps:
                continue
            n["tag"] += 1
            ok = any(h[1].split("@")[0].split(".")[0] in ps for h in st.ts)
            rep.ob(f"tag:{f.file}:KeepTag", ok,
                   f"{f.loc(e)}: the commit is tagged without the tagging "
                   "lock", f"KeepTag in {fn} under the tagging lock")
        elif i == 2:
            if f.key in caps.created:
                continue    # runs with the mutex of the map held
            n["out"] += 1
            ok = bool(st.ts)
            why = "without a lock"
            if ok and f.file.endswith("file.hpp"):
                # the mutex of the very file that is written
                ok = any("Get(" in h[1] for h in st.ts)
                why = "without the mutex of the file"
                if ok and e["fn"].endswith("fopen"):
                    p = L.LockPolicy(a).canon(
                        E.Engine(fx, E.Policy()), f, e["a"][0], st)
                    arg = [h[1].split("Get(", 1)[1].rstrip(")")
                           for h in st.ts if "Get(" in h[1]]
                    ok = any(x in p for x in arg)
                    why = "under the mutex of another file"
            rep.ob(f"log:{f.file}:{e['fn']}", ok,
                   f"{f.loc(e)}: log output is written {why}",
                   f"{e['fn']} in {f.file} under lock")
        elif i == 3:
            kind, _, how = a.usage(f, e)
            if f.kind in ("ctor",) or root.q in ("main",):
                continue
            n["static"] += 1
            rep.ob(f"static:{f.file}:{e['v'].split('@')[0]}", bool(st.ts),
                   f"{f.loc(e)}: {e['v'].split('@')[0]}, which all threads "
                   f"share, is changed ({how}) without a lock",
                   f"{e['v']} ({how}) in {fn} under lock")
    rep.count("openings of git repositories", n["git"], 2)
    rep.count("taggings under a given lock", n["tag"], 1)
    rep.count("log outputs", n["out"], 3)
    rep.count("changes of static variables", n["static"], 1)


def captures_rule(fx, rep, a, caps):
    """Variables captured by reference in closures that threads run."""
    m = 0
    runs = caps.runs
    for i, f, e, st, root, o in a.events:
        if i != 4:
            continue
        par, le, refs = caps.of[f.key]
        t = refs.get(e["v"], "") or f.t(e)
        if L.SYNC.search(t) or t.startswith("const ") or "Logger" in t:
            continue
        kind, _, how = a.usage(f, e)
        if kind != "W":
            continue
        mutexes = {v for v, ty in refs.items() if "mutex" in ty}
        if mutexes:
            m += 1
            ok = any(h[1] in mutexes for h in st.ts)
            rep.ob(f"captured:{f.file}:{e['v'].split('@')[0]}", ok,
                   f"{f.loc(e)}: {e['v'].split('@')[0]} is changed ({how}) "
                   "without the lock captured with it",
                   f"captured {e['v']} ({how}) under lock")
        elif f.key in runs and SCALAR.match(t):
            rep.ob(f"task:{f.file}:{e['v'].split('@')[0]}", False,
                   f"{f.loc(e)}: {e['v'].split('@')[0]} is changed ({how}) "
                   f"by a closure given to {runs[f.key]} and is not atomic")
    rep.count("changes of captured variables under captured locks", m, 1)
    rep.count("closures run by other threads", len(runs), 8)
    for k in runs:
        rep.ob("run:" + fx.func(k).file if fx.has(k) else k, True)


def lambda_of(f, eid):
    e = f.el.get(eid)
    n = 0
    while e is not None and n < 12:
        n += 1
        if e["op"] == "lambda":
            return e.get("fk")
        if e["op"] in ("cast", "un") and e.get("a"):
            e = f.el.get(e["a"][0])
        elif e["op"] == "ctor" and len(e.get("a", ())) == 1:
            e = f.el.get(e["a"][0])
        elif e["op"] == "call" and e.get("fn") in E.PASS:
            e = f.el.get(e["a"][0])
        elif e["op"] == "ref":
            for d in f.elems():
                for x in d.get("d", ()) if d["op"] == "decl" else ():
                    if e.get("v") and x.get("v") == e["v"] and x.get("i") is not None:
                        return lambda_of(f, x["i"])
            return None
        else:
            return None
    return None


# ------------------------------------------------------------------- atomics
LOADS = {"load", "operator bool", "operator int", "operator T"}


def atomic_ops(a, f):
    """(path, 'L' | 'S' | 'X' used | 'x' unused result, element)"""
    us = a.users(f)
    for e in f.elems():
        if e["op"] != "call":
            continue
        fn = e.get("fn", "")
        n = fn.rsplit("::", 1)[-1]
        tgt = e.get("o")
        if fn.startswith("std::atomic_") and e.get("a"):
            tgt = e["a"][0]
            n = fn[len("std::atomic_"):]
            if "shared_ptr" in f.t(f.el.get(tgt, {})):
                continue
        elif not re.match(r"std::(__)?atomic", fn):
            continue
        if tgt is None:
            continue
        p = atom_name(f, tgt)
        if p is None:
            continue
        used = bool(us.get(e["i"]))
        if n.startswith("operator ") or n in ("load", "load_explicit"):
            yield p, "L", e
        elif n in ("store", "operator=", "store_explicit"):
            yield p, "S", e
        else:
            yield p, "X" if used else "x", e


def atomic_calls(fx, a, f, depth=2):
    """The same for methods called on objects that have a name here."""
    us = a.users(f)
    for e in f.elems():
        if e["op"] != "call" or e.get("o") is None or not e.get("fk") or \
                e.get("virt"):
            continue
        g = fx.func(e["fk"])
        if g is None or g.key == f.key or not g.cls or g.kind == "lambda":
            continue
        base = atom_name(f, e["o"])
        if base is None:
            continue
        l = [(p, k, (g.key, x["i"])) for p, k, x in atomic_ops(a, g)]
        if depth > 1:
            l += [(p, k, i) for p, k, x, i in atomic_calls(
                fx, a, g, depth - 1)]
        for p, k, inner in l:
            if p.startswith("this."):
                if k == "S":
                    continue    # what a method sets is its own business
                if k == "X" and not us.get(e["i"]):
                    k = "x"
                yield base + p[4:], k, e, inner


def atom_name(f, eid):
    e = f.el.get(eid)
    n = 0
    while e is not None and n < 10:
        n += 1
        if e["op"] == "mem" and not e.get("isf"):
            b = atom_name(f, e["b"])
            return (b or "this") + "." + e["m"]
        if e["op"] == "ref":
            return e["v"]
        if e["op"] == "this":
            return "this"
        if e["op"] in ("cast", "un") and e.get("a"):
            e = f.el.get(e["a"][0])
        elif e["op"] == "call" and e.get("o") is not None and E.is_deref_call(
                e):
            e = f.el.get(e["o"])
        else:
            return None
    return None


def atomics_rule(fx, rep, a):
    held = {}
    for i, f, e, st, root, o in a.events:
        if i == 5:
            held.setdefault((f.key, e["i"]), []).append(bool(st.ts))
    nf = 0
    for f in fx.funcs():
        if f.kind in ("ctor", "dtor"):
            continue
        ops = {}
        for p, k, e in atomic_ops(a, f):
            ops.setdefault(p, []).append((k, e))
        for p, k, e, inner in atomic_calls(fx, a, f):
            ops.setdefault(p, []).append((k, e))
            if held.get(inner):
                held.setdefault((f.key, e["i"]), held[inner])
        for p, l in ops.items():
            nf += 1
            ks = {k for k, _ in l}
            bad = "L" in ks and ks & {"S", "x"}
            if bad:
                # both under a lock: no other thread in between
                if all(all(held.get((f.key, e["i"]), [False]))
                       for k, e in l if k in "LSx"):
                    bad = False
            if bad and not p.startswith("this") and "." not in p and any(
                    d.get("v") == p for q in f.elems()
                    for d in q.get("d", ())):
                bad = False     # variable of this function: it is the owner
            if bad and "." not in p and "x" not in ks:
                bad = False     # a flag that is raised is never lowered
            if bad and fwd_only(f, l):
                bad = False
            rep.ob(f"rmw:{f.file}:{F.plain(f.short())}:{p.split('@')[0]}"
                   if f.kind != "lambda" else f"rmw:{f.file}:closure:"
                   f"{p.split('@')[0]}", not bad,
                   f"{f.loc(l[0][1])}: {p.split('@')[0]} is read and then "
                   "changed by a separate operation in "
                   f"{F.plain(f.short())}; another thread can come in "
                   "between", f"{p} in {F.plain(f.short())}: {sorted(ks)}")
            for k, e in l:
                weak = any(x.get("op") == "ref" and "relaxed" in str(
                    x.get("v", "")) for x in (
                        f.el.get(y, {}) for y in e.get("a", ())))
                rep.ob(f"order:{f.file}:{p.split('@')[0]}", not weak,
                       f"{f.loc(e)}: relaxed access to {p.split('@')[0]}")
    rep.count("atomic variables used, per function", nf, 40)


def fwd_only(f, l):
    """Loads that come after the change on every path only read it."""
    pos = {}
    for bi, b in f.blocks.items():
        for j, e in enumerate(b["e"]):
            pos[e["i"]] = (bi, j)
    change = [pos[e["i"]] for k, e in l if k in "Sx"]
    loads = [pos[e["i"]] for k, e in l if k == "L"]
    succ = {i: [s for s in b["s"] if s is not None]
            for i, b in f.blocks.items()}

    def reach(a, b):
        if a[0] == b[0] and a[1] < b[1]:
            return True
        seen, todo = set(), list(succ[a[0]])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == b[0]:
                return True
            todo += succ.get(x, [])
        return False

    # a counter that is lowered first and tested by a second read races too
    if any(k == "x" for k, _ in l):
        return False
    return not any(reach(ld, c) for ld in loads for c in change)


def lockfree_rule(fx, rep, a):
    n = 0
    recs = names_of(fx)
    writes = {}
    for f in fx.funcs():
        if f.kind in ("ctor", "dtor"):
            continue
        for e in f.elems():
            if e["op"] != "mem" or e.get("isf"):
                continue
            cls, _, fld = F.plain(e.get("v") or "").rpartition("::")
            if cls not in LOCKFREE:
                continue
            if a.usage(f, e)[0] == "W":
                writes.setdefault((cls, fld), (f, e))
    for cls in sorted(LOCKFREE):
        r = recs.get(cls)
        if r is None:
            rep.note(cls + " does not exist any more")
            continue
        for y in r["fields"]:
            t = y["ty"]
            w = writes.get((cls, y["n"]))
            if not SCALAR.match(t):
                continue
            if cls in a.mclass and w is not None:
                # decided by the rule of the guarded fields, unless there
                # are accesses without a lock
                un = [x for x in a.mem if x.cls == cls and
                      x.field == y["n"] and not x.ts and
                      x.f.kind not in ("ctor", "dtor")]
                w = (un[0].f, un[0].e) if un else None
            n += 1
            rep.ob(f"plain:{cls}::{y['n']}", w is None,
                   f"{w[0].loc(w[1]) if w else ''}: {cls}::{y['n']} is "
                   f"changed while other threads use it, but is of type {t}")
        at = sum(1 for y in r["fields"] if "atomic" in y["ty"])
        n += at
        rep.ob("lockfree:" + cls, True, "",
               f"{cls}: {at} atomic fields")
    rep.count("fields of lock-free classes", n, 30)


def own_mutex_rule(fx, rep, a, caps):
    """A mutex that only one call can see protects nothing."""
    seen = {v for _, _, refs in caps.of.values() for v in refs}
    n = 0
    for (k, c), loc in sorted(a.plainlocks.items()):
        f = fx.func(k)
        own = False
        given = False
        for e in f.elems():
            if e["op"] == "decl" and any(
                    d["v"] == c and not d.get("st") and not d.get("rf")
                    for d in e["d"]):
                own = True
            if e["op"] == "un" and e["k"] == "&" and atom_name(
                    f, e["a"][0]) == c:
                given = True
            if e["op"] == "call" and "condition_variable" in e.get("fn", ""):
                given = True    # only there to be waited with
        n += 1
        rep.ob(f"own:{f.file}:{c.split('@')[0]}", not own or given or
               c in seen, f"{loc}: the lock is on {c.split('@')[0]}, which "
               "no other thread can see")


def run(fx, rep):
    rep.rule("an access to a field of a class that owns a mutex, where the "
             "field changes after construction, happens with that mutex "
             "held, exclusively for changes, and that of the right part for "
             "maps in parts")
    rep.rule("no reference to such a field is returned, and no decision "
             "taken in one locked region is acted on in another")
    rep.rule("operations that are not thread-safe (opening repositories, "
             "tagging, log output, static variables) run under their lock")
    rep.rule("variables captured together with a mutex are changed with it "
             "held; closures given to other threads change no plain scalar")
    rep.rule("an atomic is not read and then changed by separate operations; "
             "numbers and flags of lock-free classes are atomic")
    caps = Captures(fx)
    a = L.Analysis(fx)
    a.watch = [w_git, w_keep, w_out, Statics(a).watch, caps.watch,
               lambda f, e: e["op"] == "call" and re.match(
                   r"std::(__)?atomic", e.get("fn", "")) is not None]
    a.run()
    rep.count("functions followed with lock sets", len(a.entered), 150)
    rep.count("mutexes", len({k for k, _ in a.locked}), 14)
    fields_rule(fx, rep, a)
    escapes_rule(fx, rep, a)
    stale_rule(fx, rep, a)
    operations_rule(fx, rep, a, caps)
    captures_rule(fx, rep, a, caps)
    atomics_rule(fx, rep, a)
    lockfree_rule(fx, rep, a)
    own_mutex_rule(fx, rep, a, caps)
