"""Threads cannot block each other forever and no queued task is lost.

The order in which locks are acquired, the state changes a thread waits for
and the accounting of queued and running tasks are followed along all paths
(sa/locks.py, sa/engine.py)."""
import re

import engine as E
import facts as F
import locks as L

CV = re.compile(r"std::condition_variable(_any)?::(wait|wait_for|wait_until|"
                r"notify_one|notify_all)$")


def cvcall(e):
    if e["op"] != "call":
        return None
    m = CV.match(e.get("fn", ""))
    if m is None and "condition_variable" in e.get("fn", ""):
        n = F.plain(e["fn"]).rsplit("::", 1)[-1]
        if n in ("wait", "wait_for", "wait_until", "notify_one",
                 "notify_all"):
            return n
    return m.group(2) if m else None


# ------------------------------------------------------------- order of locks
def callback_args(fx):
    """function key -> closures given to it as arguments"""
    import c04_locking as C4
    out = {}
    for f in fx.funcs():
        for e in f.elems():
            if e["op"] == "call" and e.get("fk"):
                for x in e.get("a", ()):
                    k = C4.lambda_of(f, x)
                    if k:
                        out.setdefault(e["fk"], set()).add(k)
    return out


def order_rule(fx, rep, a):
    # transitive acquisitions of functions
    calls = {}
    emits = [f.key for f in fx.funcs() if f.name == "Emit"]
    cbs = callback_args(fx)
    for f in fx.funcs():
        s = calls.setdefault(f.key, set())
        for e in f.elems():
            if e["op"] in ("call", "ctor") and e.get("fk"):
                s.add(e["fk"])
                if e.get("virt") and e["fn"].endswith("::Emit"):
                    s.update(emits)
                # closures run by library algorithms
            if e["op"] == "lambda" and e.get("fk") in a.sync:
                s.add(e["fk"])
    acq = {k: set(v) for k, v in a.acquisitions.items()}
    changed = True
    while changed:
        changed = False
        for k, s in calls.items():
            t = acq.setdefault(k, set())
            n = len(t)
            for c in s:
                t |= acq.get(c, set())
            if len(t) != n:
                changed = True
    edges = {}
    for (x, y), loc in a.pairs.items():
        edges.setdefault((x, y), loc)
    for (fk, ck), held in a.calls_held.items():
        for y in acq.get(ck, ()):
            for x in held:
                edges.setdefault((x, y), f"{fx.func(fk).file}: "
                                 f"{F.plain(fx.func(fk).short())} calls "
                                 f"{F.plain(fx.func(ck).short())}")
    for f, e, ts in a.unknown:
        for k in cbs.get(f.key, ()):
            for y in acq.get(k, ()):
                for h in ts:
                    edges.setdefault((h[3], y), f.loc(e))
    graph = {}
    for (x, y), loc in edges.items():
        if x != "?" and y != "?":
            graph.setdefault(x, {})[y] = loc
    for key, text in a.again.items():
        rep.ob(f"again:{key[0]}:{key[1]}", False, text)
    n = 0
    for x, ys in sorted(graph.items()):
        for y, loc in sorted(ys.items()):
            n += 1
            path = reach(graph, y, x)
            rep.ob(f"order:{x}:{y}", path is None,
                   f"{loc}: {y} is acquired while {x} is held, and " +
                   ("it is the same lock" if x == y else
                    f"{x} is acquired while {y} is held "
                    f"({' -> '.join(path or [])})"),
                   f"{x} before {y}")
    locks = {k for v in a.acquisitions.values() for k in v}
    rep.count("locks in the order", len(locks), 14)
    rep.count("pairs in the order of locks", n, 4)
    return acq


def reach(graph, a, b):
    if a == b:
        return [a]
    seen, todo = {a}, [[a]]
    while todo:
        p = todo.pop()
        for y in graph.get(p[-1], ()):
            if y == b:
                return p + [y]
            if y not in seen:
                seen.add(y)
                todo.append(p + [y])
    return None


# -------------------------------------------------------------------- waiting
def in_loop(f, e):
    """Whether the block of the element can be reached from itself."""
    b0 = e["B"]
    seen, todo = set(), [s for s in f.blocks[b0]["s"] if s >= 0]
    while todo:
        b = todo.pop()
        if b == b0:
            return True
        if b in seen or b not in f.blocks:
            continue
        seen.add(b)
        todo += [s for s in f.blocks[b]["s"] if s is not None and s >= 0]
    return False


def waits_rule(fx, rep, a):
    n = 0
    for i, f, e, st, root, o in a.events:
        if i != 0:
            continue
        k = cvcall(e)
        if not k.startswith("wait"):
            continue
        n += 1
        need = 2 if k == "wait" else 3
        pred = len(e.get("a", ())) >= need
        key = f"wait:{f.file}:{F.plain(f.cls or 'closure')}"
        rep.ob(key, pred or in_loop(f, e),
               f"{f.loc(e)}: waits without a predicate or loop, so that a "
               "spurious or earlier wakeup is mistaken for the event",
               f"{e['fn']} at {f.loc(e)} " + ("with predicate" if pred
                                               else "in a loop"))
        ls = {h[3] for h in st.ts}
        rep.ob(key + ":locks", len(ls) == 1,
               f"{f.loc(e)}: waits with " + (
                   "the locks " + ", ".join(sorted(ls)) if ls else "no lock")
               + " held")
    rep.count("waits on conditions", n, 4)


def predicate_fields(fx, cls):
    """Fields read by the predicates of the waits of a class, and the
    number of waits."""
    P, n = set(), 0
    timed = False
    fs = [f for f in fx.funcs() if f.cls and F.plain(f.cls) == cls]
    byk = {f.key: f for f in fs}
    for f in fs:
        for e in f.elems():
            k = cvcall(e)
            if k is None or not k.startswith("wait"):
                continue
            n += 1
            todo = [g for g in fx.lambdas_of(f)] if len(e["a"]) > 1 else [f]
            seen = set()
            while todo:
                g = todo.pop()
                if g.key in seen:
                    continue
                seen.add(g.key)
                for x in g.elems():
                    if x["op"] == "mem" and not x.get("isf"):
                        c, _, fld = F.plain(x.get("v") or "").rpartition("::")
                        if c == cls:
                            P.add(fld)
                    if x["op"] == "call" and x.get("fk") in byk and \
                            cvcall(x) is None:
                        todo.append(byk[x["fk"]])
    return P, n


DISABLING = {"++", "operator++", "fetch_add", "pop_front", "pop_back",
             "pop", "clear", "erase", "+="}


class Wake(L.LockPolicy):
    """Changes that a waiting thread may wait for."""

    def __init__(self, an, cls, P, external):
        super().__init__(an)
        self.cls, self.P, self.ext = cls, P, external
        self.bad = []
        self.n = 0

    def visit(self, eng, f, e, st):
        pass

    def change(self, eng, f, e, how, st):
        self.n += 1
        return st.set("#pend", E.AV(E.POS, None, (
            "pend", bool(st.ts), f.loc(e), how)))

    def acquire(self, eng, f, e, var, meid, mode, st):
        st = super().acquire(eng, f, e, var, meid, mode, st)
        v = st.env.get("#pend")
        if v is not None and v.tag:
            st = st.set("#pend", v.but(tag=("pend", True) + v.tag[2:]))
        return st

    def field(self, f, eid):
        m = self.a.guarded_operand(f, eid)
        return m[1] if m is not None and m[0] == self.cls and \
            m[1] in self.P else None

    def elem(self, eng, f, e, st):
        r = super().elem(eng, f, e, st)
        if e["op"] == "asg" and self.field(f, e["a"][0]):
            return [self.change(eng, f, e, "assigned", s)
                    for s in (r or [st])]
        if e["op"] == "un" and e["k"].startswith("--") and self.field(
                f, e["a"][0]):
            return [self.change(eng, f, e, "--", s) for s in (r or [st])]
        return r

    def call(self, eng, f, e, st, depth):
        fn = e.get("fn", "")
        n = F.plain(fn).rsplit("::", 1)[-1]
        k = cvcall(e)
        if k and k.startswith("notify"):
            v = st.env.get("#pend")
            if v is not None and v.tag:
                if not v.tag[1]:
                    self.bad.append(("lost", f, e, v.tag))
                if k == "notify_one" and v.tag[3] in (
                        "assigned", "operator=", "store", "--", "operator--",
                        "exchange", "fetch_sub"):
                    self.bad.append(("one", f, e, v.tag))
            return [(E.UNK, st.set("#pend", E.UNK))]
        tgt = e.get("o")
        if fn.startswith("std::atomic_") and e.get("a"):
            tgt = e["a"][0]
            n = fn[len("std::atomic_"):]
        if tgt is not None and fn.startswith("std::") and self.field(
                f, tgt) and e["op"] == "call":
            if n in ("operator--", "fetch_sub"):
                s = self.change(eng, f, e, n, st)
                return [(E.AV(E.TOP, None, ("dec", n)), s)]
            if n in ("operator=", "store", "exchange", "emplace_back",
                     "push_back", "emplace", "insert", "operator-=",
                     "push_front", "swap"):
                return [(E.UNK, self.change(eng, f, e, n, st))]
        return super().call(eng, f, e, st, depth)

    def branch(self, eng, f, blk, cond, truth, st):
        v = st.env.get("#pend")
        if v is not None and v.tag:
            for k, x in st.env.items():
                if x.tag and x.tag[0] == "dec":
                    # fetch_sub yields the value before
                    if x.tag[1] == "fetch_sub":
                        continue
                    if not x.s & E.ZERO:
                        return st.set("#pend", E.UNK)
        return st


def wakeups_rule(fx, rep, a):
    n = 0
    for cls, (r, ms) in sorted(a.mclass.items()):
        if not any("condition_variable" in y["ty"] for y in r["fields"]):
            continue
        P, nw = predicate_fields(fx, cls)
        if not nw:
            continue
        ext = cls.startswith("atomic")
        rep.ob(f"pred:{cls}", bool(P), f"the predicate of {cls} reads no "
               "field", f"{cls} waits for {', '.join(sorted(P))}")
        seen = set()
        for f in fx.funcs():
            if not f.cls or F.plain(f.cls) != cls or f.kind in (
                    "ctor", "dtor", "lambda") or a.is_helper_shape(f):
                continue
            pol = Wake(a, cls, P, ext)
            pol.root = f
            eng = L.VisitEngine(fx, pol)
            outs = eng.run(f, E.State({}, frozenset()))
            if not pol.n:
                continue
            n += 1
            name = F.plain(f.short())
            for o in outs:
                v = o.st.env.get("#pend")
                if v is None or not v.tag:
                    continue
                if ext:
                    rep.ob(f"wake:{name}:lock", v.tag[1],
                           f"{v.tag[2]}: a waiting thread can miss this "
                           "change, as it is made without the lock")
                else:
                    rep.ob(f"wake:{name}:notify", False,
                           f"{v.tag[2]}: what a thread waits for changes "
                           f"({v.tag[3]}), but {name} can end without "
                           "notifying it")
            for k, g, e, t in pol.bad:
                rep.ob(f"wake:{name}:{k}", False,
                       f"{g.loc(e)}: " + (
                           "the change notified here was made without the "
                           "lock; a thread about to wait misses it"
                           if k == "lost" else
                           "only one of the waiting threads is notified of "
                           "a change that concerns all"))
            rep.ob(f"wake:{name}", True, "",
                   f"{name}: changes of {', '.join(sorted(P))} are made "
                   "under the lock and notified")
    rep.count("functions that change what threads wait for", n, 8)


class Publish(E.Policy):
    """Stores to objects that other threads wait on."""
    max_depth = 3

    def __init__(self):
        self.n = 0

    def inline(self, eng, f, e, g, st, depth):
        return g.kind == "lambda" and False

    def call(self, eng, f, e, st, depth):
        fn = F.plain(e.get("fn", ""))
        c, _, n = fn.rpartition("::")
        if c not in ("atomic_shared_ptr", "atomic") or e.get("o") is None:
            return None
        p = eng.path(f, e["o"], st) or "?"
        k = "#p " + p
        if n in ("store", "operator="):
            null = False
            x = eng.src(f, e["a"][0]) if e.get("a") else None
            if x is not None and (x["op"] == "null" or x["op"] == "ctor" and
                                  (not x.get("a") or eng.src(
                                      f, x["a"][0])["op"] == "null")):
                null = True
            if null:
                return None
            self.n += 1
            return [(E.UNK, st.set(k, E.AV(E.POS, None, ("st", f.loc(e)))))]
        if n.startswith("notify"):
            return [(E.UNK, st.set(k, E.AV(E.ZERO, None, ("nt", n))))]
        return None


def publish_rule(fx, rep):
    n = 0
    for f in fx.funcs():
        if not any(e["op"] == "call" and F.plain(e.get("fn", "")).startswith(
                ("atomic_shared_ptr::", "atomic::")) for e in f.elems()) or (
                    f.cls and F.plain(f.cls).startswith("atomic")):
            continue
        pol = Publish()
        outs = E.Engine(fx, pol).run(f, E.State({}, frozenset()))
        n += pol.n
        for o in outs:
            for k, v in o.st.env.items():
                if isinstance(k, str) and k.startswith("#p ") and v.tag and \
                        v.tag[0] == "st":
                    rep.ob(f"publish:{F.plain(f.short())}", False,
                           f"{v.tag[1]}: a value is stored that threads wait "
                           "for, and they are not notified")
        rep.ob(f"publish-checked:{F.plain(f.short())}", True)
    rep.count("stores to values that threads wait for", n, 1)


# --------------------------------------------------------------- the workload
class Load(L.LockPolicy):
    """Number of queued tasks and workload in the methods of a queue."""

    def __init__(self, an, queue, work):
        super().__init__(an)
        self.queue, self.work = queue, work
        self.bad = []
        self.n = 0

    def visit(self, eng, f, e, st):
        pass

    @staticmethod
    def num(st, k):
        v = st.env.get(k)
        return v.c if v is not None and isinstance(v.c, int) else 0

    def add(self, st, k, d):
        self.n += 1
        return st.set(k, E.const(self.num(st, k) + d))

    def released(self, f, e, st):
        if self.num(st, "#w") < self.num(st, "#q"):
            self.bad.append((f, e, "a task is in the queue that the workload "
                             "does not count"))

    def elem(self, eng, f, e, st):
        if e["op"] == "dtor" and any(x[0] == e.get("v") for x in st.ts):
            self.released(f, e, st)
        return super().elem(eng, f, e, st)

    def call(self, eng, f, e, st, depth):
        fn = F.plain(e.get("fn", ""))
        c, _, n = fn.rpartition("::")
        if c == "WaitableZeroCounter" and n in ("Increment", "Decrement"):
            return [(E.UNK, self.add(st, "#w", 1 if n[0] == "I" else -1))]
        k = cvcall(e)
        if k and k.startswith("wait"):
            if self.num(st, "#w") != self.num(st, "#q") - 1:
                self.bad.append((f, e, "the thread waits for tasks while it "
                                 "still counts as working (or other threads "
                                 "are no longer counted)"))
            for x in e.get("a", ()):
                pass
            return None
        if e.get("o") is not None and fn.startswith("std::") and \
                e["op"] == "call":
            m = self.a.guarded_operand(f, e["o"])
            if m is not None and m[1] in self.queue:
                if n in ("emplace_back", "push_back", "emplace_front",
                         "push_front", "emplace", "push"):
                    return [(E.UNK, self.add(st, "#q", 1))]
                if n in ("pop_front", "pop_back", "pop"):
                    return [(E.UNK, self.add(st, "#q", -1))]
                if n in ("clear", "swap", "erase", "resize"):
                    self.bad.append((f, e, "tasks are dropped"))
            if L.is_lock_type(f.t(f.el.get(e["o"], {}))) and n in (
                    "unlock", "release"):
                self.released(f, e, st)
        return super().call(eng, f, e, st, depth)


def workload_rule(fx, rep, a):
    n = 0
    for cls, (r, ms) in sorted(a.mclass.items()):
        queue = {y["n"] for y in r["fields"] if re.search(
            r"std::(deque|queue|list|vector)<.*Task\b", y["ty"]) and
            "mutex" not in y["ty"]}
        work = {y["n"] for y in r["fields"]
                if "WaitableZeroCounter" in y["ty"]}
        if not queue or not work:
            continue
        for f in fx.funcs():
            if not f.cls or F.plain(f.cls) != cls or f.kind in (
                    "ctor", "dtor", "lambda") or a.is_helper_shape(f):
                continue
            pol = Load(a, queue, work)
            pol.root = f
            outs = L.VisitEngine(fx, pol).run(f, E.State({}, frozenset()))
            if not pol.n:
                continue
            n += 1
            name = F.plain(f.short())
            for g, e, why in pol.bad:
                rep.ob(f"load:{name}:inside", False, f"{g.loc(e)}: {why}")
            for o in outs:
                q, w = pol.num(o.st, "#q"), pol.num(o.st, "#w")
                rep.ob(f"load:{name}", q == w,
                       f"{f.file}: {name} changes the number of queued tasks "
                       f"by {q} but the workload by {w} on some path",
                       f"{name}: {q:+d} tasks, workload {w:+d}")
    rep.count("methods that queue or take tasks", n, 4)


class Queueing(E.Policy):
    """Tasks put into queues on a path."""
    max_depth = 3

    def inline(self, eng, f, e, g, st, depth):
        return g.cls == f.cls and g.kind != "lambda"

    def call(self, eng, f, e, st, depth):
        fn = F.plain(e.get("fn", ""))
        c, _, n = fn.rpartition("::")
        if c != "NotificationQueue":
            return None
        v = st.env.get("#n")
        k = v.c if v is not None and isinstance(v.c, int) else 0
        more = st.set("#n", E.const(min(k + 1, 2)))
        if n == "push":
            return [(E.UNK, more)]
        if n == "try_push":
            return [(E.TRUE, more), (E.FALSE, st)]
        return None


class Running(E.Policy):
    """Tasks taken from queues are run."""
    max_depth = 3

    def __init__(self):
        self.bad = []
        self.n = 0

    def inline(self, eng, f, e, g, st, depth):
        return g.cls == f.cls and g.kind != "lambda"

    def call(self, eng, f, e, st, depth):
        fn = F.plain(e.get("fn", ""))
        c, _, n = fn.rpartition("::")
        has = st.env.get("#t")
        if c == "NotificationQueue" and n in ("pop", "try_pop"):
            self.n += 1
            if has is not None and has.c == 1:
                self.bad.append((f, e, "another task is taken although the "
                                 "one at hand was not run"))
            return [(E.AV(E.POS, None, ("task",)),
                     st.set("#t", E.const(1))),
                    (E.AV(E.ZERO), st)]
        if n == "operator()" and ("function" in fn or c == "Task"):
            self.n += 1
            if has is None or has.c != 1:
                self.bad.append((f, e, "a task is run that was not taken "
                                 "from a queue just before"))
            return [(E.UNK, st.set("#t", E.const(0)))]
        if re.match(r"std::(__)?atomic", fn) and e.get("o") is not None and (
                n.startswith("operator bool") or n == "load" or
                n.startswith("operator ")) and n != "operator=":
            p = eng.path(f, e["o"], st) or ""
            if "shutdown" in p or "stop" in p or "done" in p:
                return [(E.TRUE, st.set("#s", E.const(1))), (E.FALSE, st)]
        return None


def tasks_rule(fx, rep):
    n = m = 0
    for f in fx.funcs():
        if not f.cls or F.plain(f.cls) != "TaskSystem" or f.kind == "lambda":
            continue
        names = {F.plain(e.get("fn", "")) for e in f.elems()
                 if e["op"] == "call"}
        if names & {"NotificationQueue::push", "NotificationQueue::try_push"}:
            outs = E.Engine(fx, Queueing()).run(f, E.State({}, frozenset()))
            n += 1
            for o in outs:
                v = o.st.env.get("#n")
                k = v.c if v is not None else 0
                rep.ob(f"queue:{F.plain(f.short())}", k == 1,
                       f"{f.file}: {F.plain(f.short())} puts the task into "
                       f"{'no queue' if k == 0 else 'more than one queue'} on "
                       "some path", "QueueTask: one push on each path")
        if names & {"NotificationQueue::pop", "NotificationQueue::try_pop"}:
            pol = Running()
            outs = E.Engine(fx, pol).run(f, E.State({}, frozenset()))
            m += pol.n
            for g, e, why in pol.bad:
                rep.ob(f"run:{F.plain(f.short())}:inside", False,
                       f"{g.loc(e)}: {why}")
            for o in outs:
                t, s = o.st.env.get("#t"), o.st.env.get("#s")
                left = t is not None and t.c == 1
                rep.ob(f"run:{F.plain(f.short())}", not left or
                       s is not None, f"{f.file}: {F.plain(f.short())} can "
                       "end with a task taken from a queue and not run, "
                       "without a shutdown",
                       "Run: each task taken is run unless shutting down")
    rep.count("functions that queue tasks", n, 1)
    rep.count("places where tasks are taken and run", m, 3)


# ------------------------------------------------------------------- threads
class Threads(E.Policy):
    """Threads owned by local variables are joined."""
    max_depth = 2

    def __init__(self):
        self.bad = []
        self.n = 0

    def elem(self, eng, f, e, st):
        if e["op"] == "decl":
            for d in e["d"]:
                t = f.types[d["t"]] if d.get("t", -1) >= 0 else ""
                if t != "std::thread" or d.get("i") is None:
                    continue
                c = eng.src(f, d["i"])
                if c is None or c["op"] not in ("ctor", "call") or not c.get(
                        "a"):
                    continue
                self.n += 1
                st = st.set("#th " + d["v"], E.const(1))
            return [st]
        if e["op"] == "dtor" and st.env.get("#th " + str(e.get("v"))):
            if st.env["#th " + e["v"]].c == 1:
                self.bad.append((f, e, "the thread is still running when "
                                 "its variable is destroyed"))
        return None

    def call(self, eng, f, e, st, depth):
        fn = F.plain(e.get("fn", ""))
        if fn in ("std::thread::join", "std::thread::detach"):
            p = eng.path(f, e.get("o"), st)
            k = "#th " + str(p)
            if fn.endswith("join") and st.env.get(k) is not None:
                for q, v in st.env.items():
                    if isinstance(q, str) and q.startswith("#fl ") and \
                            v.c == 0:
                        self.bad.append((f, e, "the thread is joined before "
                                         f"it is told to stop ({q[4:]})"))
            return [(E.UNK, st.set(k, E.const(0)))]
        n = fn.rsplit("::", 1)[-1]
        if re.match(r"std::(__)?atomic", fn) and e.get("o") is not None and \
                n in ("operator=", "store"):
            p = eng.path(f, e["o"], st)
            k = "#fl " + str(p)
            if k in st.env:
                v = eng.val(f, e["a"][0], st)
                if v.s & E.POS or v.s == E.TOP:
                    return [(E.UNK, st.set(k, E.const(1)))]
        return None


def stop_flags(fx, f, d):
    """Atomic flags of the function that the closure of a thread gets by
    reference."""
    import c04_locking as C4
    k = C4.lambda_of(f, d["i"])
    out = set()
    for e in f.elems():
        if e["op"] == "lambda" and (k is None or e.get("fk") == k):
            for c in e.get("caps", ()):
                if c.get("v") and c.get("ref") and "std::atomic" in f.t(
                        f.el.get(c.get("i"), {})):
                    out.add(c["v"])
    return out


def threads_rule(fx, rep, a):
    n = 0
    for f in fx.funcs():
        ds = [(e, d) for e in f.elems() if e["op"] == "decl" for d in e["d"]
              if d.get("t", -1) >= 0 and f.types[d["t"]] == "std::thread"]
        if not ds:
            continue
        pol = Threads()
        flags = set()
        for e, d in ds:
            if d.get("i") is not None:
                flags |= stop_flags(fx, f, d)
        st = E.State({"#fl " + v: E.const(0) for v in flags}, frozenset())
        E.Engine(fx, pol).run(f, st)
        n += pol.n
        for g, e, why in pol.bad:
            rep.ob(f"thread:{F.plain(f.short())}", False, f"{g.loc(e)}: "
                   + why)
        rep.ob(f"thread-checked:{F.plain(f.short())}", True, "",
               f"{F.plain(f.short())}: thread joined, told to stop before "
               f"({', '.join(sorted(flags))})")
    rep.count("threads of local variables", n, 1)
    # the threads of the task system
    d = [f for f in fx.funcs() if f.kind == "dtor" and f.cls and
         F.plain(f.cls) == "TaskSystem"]
    for f in d:
        order = []
        pos = {}
        for bi, b in f.blocks.items():
            for j, e in enumerate(b["e"]):
                if e["op"] == "call":
                    n2 = F.plain(e["fn"])
                    for k, pat in (("finish", ("TaskSystem::Finish",
                                               "WaitableZeroCounter::"
                                               "WaitForZero")),
                                   ("shutdown", ("TaskSystem::Shutdown",)),
                                   ("join", ("std::thread::join",))):
                        if n2 in pat:
                            pos.setdefault(k, []).append((bi, j))
        for k in ("finish", "shutdown", "join"):
            rep.ob("destroy:" + k, k in pos, f"{f.file}: the task system is "
                   f"destroyed without {k}", f"~TaskSystem: {k}")
        for x, y in (("finish", "shutdown"), ("shutdown", "join")):
            if x in pos and y in pos:
                ok = all(not precedes(f, q, p) for p in pos[x]
                         for q in pos[y]) and all(
                             any(precedes(f, p, q) for p in pos[x])
                             for q in pos[y])
                rep.ob(f"destroy:{x}:{y}", ok, f"{f.file}: the task system "
                       f"is destroyed with {y} before {x}")
    rep.count("destructors of the task system", len(d), 1)
    sh = fx.named("TaskSystem::Shutdown")
    for f in sh:
        called = {F.plain(e.get("fn", "")) for e in f.elems()
                  if e["op"] == "call"}
        stored = {F.plain(f.el[e["o"]].get("v", "")) if e.get("o") in f.el
                  else "" for e in f.elems() if e["op"] == "call" and re.match(
                      r"std::(__)?atomic", e["fn"])}
        for k in ("WaitableZeroCounter::Abort", "NotificationQueue::done"):
            rep.ob("shutdown:" + k, k in called,
                   f"{f.file}: Shutdown does not call {k}; waiting threads "
                   "never end")
        rep.ob("shutdown:flag", bool(stored), f"{f.file}: Shutdown sets no "
               "flag")


def precedes(f, p, q):
    if p[0] == q[0]:
        return p[1] < q[1]
    seen, todo = set(), [s for s in f.blocks[p[0]]["s"] if s >= 0]
    while todo:
        b = todo.pop()
        if b == q[0]:
            return True
        if b in seen or b not in f.blocks:
            continue
        seen.add(b)
        todo += [s for s in f.blocks[b]["s"] if s >= 0]
    return False


def run(fx, rep):
    rep.rule("the order in which locks are acquired (also through calls and "
             "callbacks) has no cycle, and no lock is acquired again")
    rep.rule("every wait has a predicate or loop and holds only its own lock;"
             " what it waits for changes under that lock and is notified on "
             "every path")
    rep.rule("queued and running tasks are counted exactly; each task is put "
             "into one queue, and each one taken is run unless shutting down")
    rep.rule("threads are told to stop and joined")
    a = L.Analysis(fx)
    a.watch = [lambda f, e: cvcall(e) is not None]
    a.run()
    order_rule(fx, rep, a)
    waits_rule(fx, rep, a)
    wakeups_rule(fx, rep, a)
    publish_rule(fx, rep)
    workload_rule(fx, rep, a)
    tasks_rule(fx, rep)
    threads_rule(fx, rep, a)
