"""Each node of a map or graph is processed once, and what waits for it runs.

The protocols of AsyncMapNode, AsyncMapConsumer, AsyncMap, of the traversal
states and of the traverser are followed path by path (sa/flow.py): which
tasks are queued, stored and run under which tests of the states."""
import re

import engine as E
import facts as F
import lib
from flow import Flow


def in_class(fx, cls, name, pred=None):
    r = [f for f in fx.funcs() if f.name == name and f.cls and
         F.plain(f.cls).rsplit("::", 1)[-1] == cls and f.blocks and
         f.kind != "lambda" and (pred is None or pred(f))]
    if not r:
        raise F.AnalysisError(f"anchor vanished: {cls}::{name}")
    return r


def ptype(f, p):
    return p[2]


# ------------------------------------------------------------ nodes of maps
class Node(Flow):

    def __init__(self, f, roles):
        super().__init__()
        self.cls = f.cls
        self.ready, self.failed, self.conts = roles

    def on_lock(self, st):
        if st.env.get(self.failed) is not None and \
                st.env[self.failed].s == E.POS:
            return [st]
        return [st.set(self.failed, E.TRUE).set("#wasfailed", E.TRUE),
                st.set(self.failed, E.FALSE)]

    def on_unlock(self, st):
        for k in (self.failed, "#a:" + self.ready):
            v = st.env.get(k)
            if v is not None and v.s == E.ZERO:
                st = st.set(k, E.UNK)
        return st

    def known(self, st, k):
        v = st.env.get(k)
        return None if v is None or v.s == E.TOP else v.s == E.POS

    def is_ready(self, st):
        return self.known(st, "#a:" + self.ready)

    def is_failed(self, st):
        return self.known(st, self.failed)

    def event(self, eng, f, e, fn, n, st, depth):
        if fn.endswith("TaskSystem::QueueTask"):
            t = self.tag(eng, f, e["a"][0], st)
            if t == ("task",):
                return [(E.UNK, self.add(st, "#queued"))]
            if t and t[0] == "elem":
                if self.state(st, "#el:" + t[1]) == "did":
                    self.complain(f, e, "a task is queued twice")
                s = self.handle(st, t[1])
                return [(E.UNK, self.add(s, "#q:" + t[1]))]
            return [(E.UNK, self.add(st, "#other"))]
        o = e.get("o")
        t = eng.val(f, o, st).tag if o is not None and \
            e["op"] == "call" else None
        if t and t[0] == "cont" and t[1] in self.conts:
            if n in ("emplace_back", "push_back", "emplace", "insert"):
                x = self.tag(eng, f, e["a"][-1], st)
                if x == ("task",):
                    if st.env.get("#lk") is None:
                        self.complain(f, e, "a task is stored without the "
                                      "lock")
                    for k, v in (("r", self.is_ready(st)),
                                 ("f", self.is_failed(st))):
                        st = st.set(f"#app:{k}", E.const(
                            2 if v is None else int(v)))
                    st = st.set("#into", E.AV(E.POS, t[1]))
                    return [(E.UNK, self.add(st, "#stored"))]
                return [(E.UNK, st)]
            if n in ("clear", "resize"):
                return [(E.UNK, st.set("#cl:" + t[1], E.TRUE).set(
                    "#dropped:" + t[1], E.TRUE))]
        if n == "operator=" and o is not None and eng.path(
                f, o, st) == "this.value_" or n == "emplace" and o is not \
                None and eng.path(f, o, st) == "this.value_":
            if st.env.get("#lk") is None:
                self.complain(f, e, "the value is set without the lock")
            if self.is_failed(st) is not False:
                self.complain(f, e, "a value is set although the node may "
                              "have failed")
            return [(E.UNK, self.add(st, "#value"))]
        return None

    def stored(self, f, e, p, v, st):
        if p == self.ready:
            if not self.num(st, "#value"):
                self.complain(f, e, "the node is declared ready before it "
                              "has its value")
            if st.env.get("#lk") is None:
                self.complain(f, e, "the node is declared ready without the "
                              "lock")
            if v.s != E.POS:
                self.complain(f, e, "a node that is ready is reset")
            return st.set("#made", E.TRUE)
        return st

    def exchanged(self, f, e, p, v, was, st):
        if v.s != E.POS:
            self.complain(f, e, "the mark is not set by the exchange")
        return st.set("#was", E.const(was))


def roles_of(fx, f):
    rec = fx.records.get("AsyncMapNode")
    if rec is None:
        raise F.AnalysisError("anchor vanished: class AsyncMapNode")
    conts = [x["n"] for x in rec["fields"] if re.match(
        r"std::(vector|deque|list)<(Task|std::function)", x["ty"])]
    fail = [x["n"] for x in rec["fields"] if x["ty"] == "bool"]
    if len(conts) < 2 or len(fail) != 1:
        raise F.AnalysisError("fields of AsyncMapNode not recognised")
    ready = None
    for g in in_class(fx, "AsyncMapNode", "IsReady"):
        for e in g.elems():
            if e["op"] == "mem" and "atomic" in g.t(e):
                ready = "this." + e["m"]
    if ready is None:
        raise F.AnalysisError("AsyncMapNode::IsReady does not read an atomic")
    return ready, "this." + fail[0], conts


def node_outs(fx, f, roles):
    pol = Node(f, roles)
    env = {"this." + c: E.AV(E.POS, None, ("cont", c)) for c in roles[2]}
    for p in f.params:
        if "TaskSystem" not in ptype(f, p):
            env[p[0]] = E.AV(E.POS, None, ("task",))
    outs = [o for o in E.Engine(fx, pol).run(f, E.State(env, frozenset()))
            if o.how == "ret"]
    pol.finish(f, outs)
    return pol, outs


def node_rule(fx, rep):
    n = 0
    roles = None
    into = {}       # method: containers its task is stored in
    for name in ("AddOrQueueAwaitingTask", "QueueOnFailure",
                 "SetAndQueueAwaitingTasks", "Fail",
                 "QueueOnceProcessingTask"):
        for f in in_class(fx, "AsyncMapNode", name):
            if roles is None:
                roles = roles_of(fx, f)
            pol, outs = node_outs(fx, f, roles)
            n += 1

            def ob(ok, why, f=f, name=name):
                rep.ob(f"node:{name}:{why[:40]}", ok,
                       f"{f.file}:{f.line}: AsyncMapNode::{name}: {why}",
                       f"AsyncMapNode::{name}: {why} -- excluded on all "
                       "paths")
            if not outs:
                raise F.AnalysisError("no path through AsyncMapNode::" + name)
            for g, e, why in pol.bad:
                ob(False, why)
            for o in outs:
                st = o.st
                q, s = pol.num(st, "#queued"), pol.num(st, "#stored")
                rdy, fld = pol.is_ready(st), pol.is_failed(st)
                sr, sf = pol.num(st, "#app:r"), pol.num(st, "#app:f")
                if s:
                    into.setdefault(name, set()).add(pol.state(st, "#into"))
                if name == "AddOrQueueAwaitingTask":
                    ob(q + s <= 1, "the task can be run more than once")
                    ob(q + s >= 1 or fld is True, "the task can be dropped "
                       "although the node has not failed")
                    ob(not s or sr == 0, "the task can be stored although "
                       "the node is ready by then, and never run")
                    ob(not s or sf == 0, "the task can be stored although "
                       "the node has failed")
                    ob(not q or rdy is True, "the task can be run before "
                       "the node is ready")
                    ob(o.val.s == (E.POS if q else E.ZERO), "the result "
                       "does not tell whether the task was queued")
                elif name == "QueueOnFailure":
                    ob(q + s <= 1, "the task can be run more than once")
                    ob(q + s >= 1 or rdy is True, "the task can be dropped "
                       "although the node can still fail")
                    ob(not s or sf == 0, "the task can be stored although "
                       "the node has failed, and never run")
                    ob(not q or fld is True, "the task can be run although "
                       "the node has not failed")
                elif name == "SetAndQueueAwaitingTasks":
                    c = sorted(into.get("AddOrQueueAwaitingTask", ()))
                    d = sorted(into.get("QueueOnFailure", ()))
                    v = pol.num(st, "#value")
                    if fld is True:
                        ob(not v and not st.env.get("#made"), "a failed "
                           "node can get a value")
                        continue
                    ob(v >= 1, "the value can be dropped although the node "
                       "has not failed")
                    ob(st.env.get("#made") is not None, "the node can have "
                       "its value and not be declared ready")
                    for x in c:
                        ob(pol.all_of(st, x), "tasks awaiting the value can "
                           "be left unqueued")
                        ob(st.env.get("#cl:" + x) is not None, "tasks "
                           "awaiting the value stay with the node when "
                           "queued")
                    for x in d:
                        ob(not pol.num(st, "#q:" + x), "tasks for the "
                           "failure are run although there is a value")
                elif name == "Fail":
                    c = sorted(into.get("QueueOnFailure", ()))
                    d = sorted(into.get("AddOrQueueAwaitingTask", ()))
                    done = any(pol.all_of(st, x) for x in c)
                    for x in d:
                        ob(not pol.num(st, "#q:" + x), "tasks awaiting a "
                           "value are run although the node failed")
                    if rdy is True:
                        ob(not any(pol.num(st, "#q:" + x) for x in c),
                           "tasks for the failure are run although the node "
                           "has a value")
                        continue
                    ob(fld is True, "the node can remain neither failed nor "
                       "ready")
                    ob(done or st.env.get("#wasfailed") is not None,
                       "tasks for the failure can be left unqueued")
                elif name == "QueueOnceProcessingTask":
                    w = pol.state(st, "#was")
                    ob(w is not None, "the processing is not guarded by an "
                       "atomic mark")
                    if w is not None:
                        ob(q == (0 if w else 1), "the processing task can "
                           "be " + ("queued again" if w else "dropped"))
    rep.count("methods of nodes followed", n, 20)
    if not into.get("AddOrQueueAwaitingTask") or not into.get(
            "QueueOnFailure"):
        raise F.AnalysisError("stored tasks of nodes not recognised")
    rep.ob("node:lists", not into["AddOrQueueAwaitingTask"] &
           into["QueueOnFailure"], "tasks for success and failure are stored "
           "in the same list")
    if roles:
        rep.note(f"roles of the fields of AsyncMapNode: {roles}, {into}")


# --------------------------------------------------------- consumers of maps
class Cons(Flow):
    stop = ("EnsureValuesEventuallyPresent", "EnsureValuePresent",
            "QueueTaskWhenAllReady", "ConsumeAfterKeysReady",
            "RecordNodeRequest")

    def __init__(self, cls):
        super().__init__()
        self.cls = cls

    def close(self, eng, f, what, a, st):
        """A closure is handed over, to be run later."""
        t = self.tag(eng, f, a, st)
        if t and t[0] == "lam" and eng.fx.has(t[1]):
            env = {k: v for k, v in st.env.items() if isinstance(k, str) and
                   not k.startswith("#")}
            self.closures.setdefault(what, []).append((t[1], env))
            return True
        if t:
            self.closures.setdefault(what, []).append((t, None))
            return True
        self.complain(f, None, "what is handed over could not be told")
        return False

    def start(self, w):
        return w.c is not None

    def event(self, eng, f, e, fn, n, st, depth):
        a = e.get("a", ())
        o = e.get("o")
        if fn in ("std::make_shared", "std::make_unique") and len(a) == 1:
            t = self.tag(eng, f, a[0], st)
            return [(E.AV(E.POS, None, t), st)]
        if fn.endswith("TaskSystem::QueueTask"):
            self.close(eng, f, "task", a[0], st)
            return [(E.UNK, self.add(st, "#task"))]
        ot = self.tag(eng, f, o, st) if o is not None else None
        if fn.startswith("AsyncMapNode::") and e["op"] == "call":
            i = ot[1] if ot and ot[0] == "node" else "?"
            if n in ("AddOrQueueAwaitingTask", "QueueOnFailure",
                     "QueueOnceProcessingTask"):
                self.close(eng, f, n, a[1], st)
                st = self.add(st, f"#{n}:{i}")
                if n == "AddOrQueueAwaitingTask":
                    return [(E.TRUE, st), (E.FALSE, st.set("#wait",
                                                           E.TRUE))]
                return [(E.UNK, st)]
            if n in ("SetAndQueueAwaitingTasks", "Fail"):
                return [(E.UNK, self.add(st, f"#{n}:{i}"))]
            if n in ("GetValue", "GetKey", "IsReady"):
                t = eng.val(f, o, st).tag or ot
                if n == "GetValue" and t and t[0] == "elem":
                    st = self.handle(st, t[1])
                return [(E.UNK, st)]
        if n in ("EnsureValuesEventuallyPresent", "EnsureValuePresent"):
            ts = [self.tag(eng, f, x, st) for x in a]
            st = self.add(st, "#ensure")
            if ("logger",) not in ts:
                self.complain(f, e, "the logger is not handed on")
            if n == "EnsureValuesEventuallyPresent":
                if ("cont", "keys") not in ts:
                    self.complain(f, e, "the keys are not handed on")
                return [(E.AV(E.POS, None, ("cont", "nodes")), st)]
            for t in ts:
                if t and t[0] == "elem":
                    st = self.handle(st, t[1])
            return [(E.AV(E.POS, None, ("node", "k")), st)]
        if n in ("QueueTaskWhenAllReady", "ConsumeAfterKeysReady"):
            ts = [self.tag(eng, f, x, st) for x in a]
            vs = [eng.val(f, x, st).c for x in a]
            self.closures.setdefault(n, []).append((ts, vs))
            return [(E.UNK, self.add(st, "#" + n))]
        if n == "RecordNodeRequest":
            return [(E.UNK, self.add(st, "#record"))]
        if n == "GetOrCreateNode":
            if self.tag(eng, f, a[0], st) != ("key",):
                self.complain(f, e, "a node is looked up for another key")
            return [(E.AV(E.POS, None, ("node", "n")), st)]
        if o is not None and e["op"] == "call":
            t = eng.val(f, o, st).tag
            if t and t[0] == "cont":
                if n == "empty":
                    return [(E.TRUE, st.set("#empty", E.TRUE)),
                            (E.FALSE, st.set("#empty", E.FALSE))]
                if n in ("at", "operator[]"):
                    i = eng.val(f, a[0], st).c
                    return [(E.AV(E.POS, None, ("node", i)), st)]
                if n == "front":
                    return [(E.AV(E.POS, None, ("node", 0)), st)]
                if n == "size" and t[1] == "keys":
                    return [(E.AV(E.ZERO, 0, ("size", "keys")),
                             st.set("#empty", E.TRUE)),
                            (E.AV(E.POS, None, ("size", "keys")),
                             st.set("#empty", E.FALSE))]
            if fn.startswith("std::function") and n == "operator()":
                t = self.tag(eng, f, o, st)
                if t and t[0] in ("consumer", "fail"):
                    return [(E.UNK, self.add(st, "#" + t[0]))]
                if t == ("logger",):
                    v = eng.val(f, a[1], st)
                    st = st.set("#fatal", E.AV(v.s))
                    return [(E.UNK, self.add(st, "#logged"))]
                if len(a) == 5 and not (t and t[0] == "lam"):
                    ts = [self.tag(eng, f, x, st) for x in a]
                    env = {k: v for k, v in st.env.items() if isinstance(
                        k, str) and not k.startswith("#")}
                    self.closures.setdefault("create", []).append((ts, env))
                    return [(E.UNK, self.add(st, "#create"))]
        return None


def later(fx, cls, clo, params=None):
    """Runs a closure that was handed over. -> policy, outcomes"""
    k, env = clo
    if env is None:
        return None, []
    g = fx.func(k)
    pol = Cons(cls)
    env = dict(env)
    if params:
        params(g, env)
    outs = [o for o in E.Engine(fx, pol).run(g, E.State(env, frozenset()))
            if o.how == "ret"]
    return pol, outs


def by_type(f):
    """Roles of the parameters of the private methods."""
    r = {}
    for p in f.params:
        t = ptype(f, p)
        if "TaskSystem" in t:
            r["ts"] = p[0]
        elif "std::shared_ptr<std::vector<" in t:
            r["nodes"] = p[0]
        elif t.replace("const ", "").startswith("std::vector<"):
            r["keys"] = p[0]
        elif "std::function<void (const std::vector<" in t:
            r["consumer"] = p[0]
        elif "std::function<void (const std::basic_string<char> &, bool)>" \
                in t or "std::function<void (const std::string &, bool)>" in \
                t:
            r["logger"] = p[0]
        elif "std::function<void ()>" in t:
            r["fail"] = p[0]
        elif "std::optional<" in t:
            r["id"] = p[0]
        elif t.replace("const ", "") in ("unsigned long", "std::size_t",
                                         "size_t"):
            r["pos"] = p[0]
        else:
            r["key"] = p[0]
    return r


def consumer_rule(fx, rep):
    n = 0
    done = set()

    def obs(f, name):
        def ob(ok, why):
            rep.ob(f"consumer:{name}:{why[:40]}", ok,
                   f"{f.file}:{f.line}: AsyncMapConsumer::{name}: {why}",
                   f"AsyncMapConsumer::{name}: {why} -- excluded on all "
                   "paths")
        return ob

    def step(f, ob, pol, o, r, idx, fail, cid, nxt):
        """The task awaits one node."""
        st = o.st
        w = pol.num(st, f"#AddOrQueueAwaitingTask:{idx}")
        tot = sum(v.c for k, v in st.env.items() if isinstance(k, str) and
                  k.startswith("#AddOrQueueAwaitingTask:"))
        ob(w == 1 and tot == 1, "the task does not await exactly the next "
           "node")
        fq = pol.num(st, f"#QueueOnFailure:{idx}")
        ftot = sum(v.c for k, v in st.env.items() if isinstance(k, str) and
                   k.startswith("#QueueOnFailure:"))
        if fail:
            ob(fq == 1 and ftot == 1, "the failure of the node awaited is "
               "not passed on")
        if cid and st.env.get("#wait") is not None:
            ob(pol.num(st, "#record") == 1, "a pending request is not "
               "recorded, so that cycles are not found")
        ob(not pol.num(st, "#task"), "the consumer is run before all values "
           "are there")
        for c in pol.closures.get("QueueOnFailure", ()):
            p2, outs = later(fx, f.cls, c)
            for o2 in outs:
                ob(p2.num(o2.st, "#fail") == 1, "the failure function is "
                   "not called on failure")
            ob(bool(outs) or c[0] == ("fail",), "the failure function is "
               "not called on failure")
        for c in pol.closures.get("AddOrQueueAwaitingTask", ()):
            p2, outs = later(fx, f.cls, c)
            ob(bool(outs), "nothing follows when a node is ready")
            for o2 in outs:
                ob(p2.num(o2.st, "#QueueTaskWhenAllReady") == 1,
                   "the remaining nodes are not awaited")
            for ts, vs in p2.closures.get("QueueTaskWhenAllReady", ()):
                for want in (("cont", "nodes"), ("consumer",)):
                    ob(want in ts, f"{want[-1]} not handed on")
                if fail:
                    ob(("fail",) in ts, "the failure function is not handed "
                       "on")
                if cid:
                    ob(("id",) in ts, "the requesting key is not handed on")
                ob(nxt in vs, "a node is not awaited")
            for g, e, why in p2.bad:
                ob(False, why)

    for f in in_class(fx, "AsyncMapConsumer", "ConsumeAfterKeysReady"):
        ob = obs(f, "ConsumeAfterKeysReady")
        r = by_type(f)
        for miss in ("keys", "consumer", "logger"):
            if miss not in r:
                raise F.AnalysisError("parameters of ConsumeAfterKeysReady")
        for fail in (True, False):
            for cid in (True, False):
                env = {r["keys"]: E.AV(E.POS, None, ("cont", "keys")),
                       r["consumer"]: E.AV(E.POS, None, ("consumer",)),
                       r["logger"]: E.AV(E.POS, None, ("logger",))}
                if "fail" in r:
                    env[r["fail"]] = E.AV(E.POS if fail else E.ZERO, None,
                                          ("fail",))
                elif fail:
                    continue
                if "id" in r:
                    env[r["id"]] = E.AV(E.POS if cid else E.ZERO, None,
                                        ("id",))
                elif cid:
                    continue
                pol = Cons(f.cls)
                outs = [o for o in E.Engine(fx, pol).run(
                    f, E.State(env, frozenset())) if o.how == "ret"]
                n += 1
                ob(bool(outs), "there is a way to the end")
                for g, e, why in pol.bad:
                    ob(False, why)
                for o in outs:
                    st = o.st
                    fw = pol.num(st, "#ConsumeAfterKeysReady")
                    if fw or not any(k.startswith("#") for k in st.env
                                     if isinstance(k, str)):
                        # handed on to the general case
                        ob(fw == 1, "the request is not handed on")
                        for ts, vs in pol.closures.get(
                                "ConsumeAfterKeysReady", ()):
                            for want in (("cont", "keys"), ("consumer",),
                                         ("logger",)):
                                ob(want in ts, f"{want[-1]} not handed on")
                            if "fail" in r and fail:
                                ob(("fail",) in ts, "the failure function "
                                   "is not handed on")
                        continue
                    if pol.state(st, "#empty") == 1:
                        ob(pol.num(st, "#task") == 1, "the consumer is not "
                           "run if there are no keys")
                        continue
                    ob(pol.num(st, "#ensure") == 1, "the values are not "
                       "requested")
                    step(f, ob, pol, o, r, 0, fail, cid, 1)
                for c in pol.closures.get("task", ()):
                    p2, o2s = later(fx, f.cls, c)
                    ob(bool(o2s), "the consumer is not run")
                    for o2 in o2s:
                        ob(p2.num(o2.st, "#consumer") == 1,
                           "the consumer is not run exactly once")
    for f in in_class(fx, "AsyncMapConsumer", "QueueTaskWhenAllReady"):
        ob = obs(f, "QueueTaskWhenAllReady")
        r = by_type(f)
        for miss in ("nodes", "pos", "consumer", "fail"):
            if miss not in r:
                raise F.AnalysisError("parameters of QueueTaskWhenAllReady")
        for fail in (True, False):
            for cid in (True, False):
                env = {r["nodes"]: E.AV(E.POS, None, ("cont", "nodes")),
                       r["consumer"]: E.AV(E.POS, None, ("consumer",)),
                       r["pos"]: E.const(5),
                       r["fail"]: E.AV(E.POS if fail else E.ZERO, None,
                                       ("fail",))}
                if "id" in r:
                    env[r["id"]] = E.AV(E.POS if cid else E.ZERO, None,
                                        ("id",))
                pol = Cons(f.cls)
                outs = [o for o in E.Engine(fx, pol).run(
                    f, E.State(env, frozenset())) if o.how == "ret"]
                n += 1
                ob(len(outs) > 1, "not all cases occur")
                for g, e, why in pol.bad:
                    ob(False, why)
                for o in outs:
                    if pol.all_of(o.st, "nodes"):
                        ob(pol.num(o.st, "#task") == 1, "the consumer is "
                           "not run when all values are there")
                        continue
                    step(f, ob, pol, o, r, 5, fail, cid, 6)
                for c in pol.closures.get("task", ()):
                    p2, o2s = later(fx, f.cls, c)
                    ob(bool(o2s), "the consumer is not run")
                    p2 and p2.finish(f, o2s)
                    for g, e, why in (p2.bad if p2 else ()):
                        ob(False, "consumer: " + why)
                    for o2 in o2s:
                        ob(p2.num(o2.st, "#consumer") == 1,
                           "the consumer is not run exactly once")
                        ob(p2.all_of(o2.st, "nodes"), "the consumer does "
                           "not get the values of all nodes")
    for f in in_class(fx, "AsyncMapConsumer",
                      "EnsureValuesEventuallyPresent"):
        ob = obs(f, "EnsureValuesEventuallyPresent")
        r = by_type(f)
        env = {r["keys"]: E.AV(E.POS, None, ("cont", "keys")),
               r["logger"]: E.AV(E.POS, None, ("logger",))}
        pol = Cons(f.cls)
        outs = [o for o in E.Engine(fx, pol).run(
            f, E.State(env, frozenset())) if o.how == "ret"]
        n += 1
        pol.finish(f, outs)
        for g, e, why in pol.bad:
            ob(False, why)
        ob(bool(outs), "there is a way to the end")
        for o in outs:
            ob(pol.all_of(o.st, "keys"), "a key is not looked up")
    for f in in_class(fx, "AsyncMapConsumer", "EnsureValuePresent"):
        ob = obs(f, "EnsureValuePresent")
        r = by_type(f)
        env = {r["key"]: E.AV(E.POS, None, ("key",)),
               r["logger"]: E.AV(E.POS, None, ("logger",))}
        pol = Cons(f.cls)
        outs = [o for o in E.Engine(fx, pol).run(
            f, E.State(env, frozenset())) if o.how == "ret"]
        n += 1
        ob(bool(outs), "there is a way to the end")
        for o in outs:
            ob(pol.num(o.st, "#QueueOnceProcessingTask:n") == 1,
               "the node is not processed")
            ob(o.val.tag == ("node", "n"), "another node is returned")
        for c in pol.closures.get("QueueOnceProcessingTask", ()):
            p2, o2s = later(fx, f.cls, c)
            ob(bool(o2s), "the value is not created")
            for o2 in o2s:
                ob(p2.num(o2.st, "#create") == 1, "the value is not created "
                   "exactly once")
            for ts, env2 in p2.closures.get("create", ()):
                ob(ts[4] == ("key",), "the value of another key is created")
                for j, what in ((1, "setter"), (2, "logger"),
                                (3, "subcaller")):
                    t = ts[j]
                    if not (t and t[0] == "lam"):
                        ob(j == 2 and False, f"the {what} is not the one of "
                           "the node")
                        continue

                    def params(g, e, j=j):
                        if j == 3:
                            for p, w in zip(g.params, (
                                    ("cont", "keys"), ("consumer",),
                                    ("logger",))):
                                e[p[0]] = E.AV(E.POS, None, w)
                    if j == 1:
                        p3, o3s = later(fx, f.cls, (t[1], env2))
                        ob(bool(o3s), "the setter ends")
                        for o3 in o3s:
                            ob(p3.num(o3.st,
                                      "#SetAndQueueAwaitingTasks:n") == 1,
                               "the setter does not set the value of the "
                               "node")
                    elif j == 2:
                        for fatal in (E.TRUE, E.FALSE):
                            def fp(g, e, fatal=fatal):
                                e[g.params[1][0]] = fatal
                            p3, o3s = later(fx, f.cls, (t[1], env2), fp)
                            ob(bool(o3s), "the logger ends")
                            for o3 in o3s:
                                ob(p3.num(o3.st, "#Fail:n") ==
                                   (1 if fatal.c else 0), "a node fails if "
                                   "and only if a fatal error is logged")
                                ob(p3.num(o3.st, "#logged") == 1 and
                                   o3.st.get("#fatal").s == fatal.s,
                                   "a message is not passed on as it is")
                    else:
                        p3, o3s = later(fx, f.cls, (t[1], env2), params)
                        ob(bool(o3s), "the subcaller ends")
                        for o3 in o3s:
                            ob(p3.num(o3.st, "#ConsumeAfterKeysReady") == 1,
                               "the subcaller requests nothing")
                        for ts4, _ in p3.closures.get(
                                "ConsumeAfterKeysReady", ()):
                            for want in (("cont", "keys"), ("consumer",),
                                         ("logger",), ("key",)):
                                ob(want in ts4, f"subcaller: {want[-1]} not "
                                   "handed on")
                            lam = [x for x in ts4 if x and x[0] == "lam"]
                            ob(len(lam) == 1, "the node does not fail with "
                               "what it needs")
                            for x in lam:
                                p5, o5s = later(fx, f.cls, (x[1], env2))
                                for o5 in o5s:
                                    ob(p5.num(o5.st, "#Fail:n") == 1,
                                       "the node does not fail with what it "
                                       "needs")
    rep.count("methods of consumers followed", n, 20)


# --------------------------------------------------------------- map of nodes
class Map(Flow):
    """The table of nodes."""

    def __init__(self, f):
        super().__init__()
        self.cls = f.cls
        self.n = 0

    def on_unlock(self, st):
        return st.set("#it:m", E.UNK)

    def iterate(self, f, e, c, more, st):
        return st.set("#it:" + c, E.AV(E.POS, "open" if more else "done"))

    def absent(self, st):
        return self.state(st, "#it:m") == "done" and \
            st.env.get("#lk") is not None

    def event(self, eng, f, e, fn, n, st, depth):
        o = e.get("o")
        if fn == "std::make_unique":
            return [(E.AV(E.POS, None, ("new",)), st)]
        if o is None or e["op"] != "call":
            return None
        t = f.t(f.el.get(o, {}))
        if "map<" in t and "std::vector<" not in t.split("map<")[0]:
            if n == "find":
                self.n += 1
                return [(E.AV(E.POS, None, ("it", "m")),
                         st.set("#it:m", E.UNK))]
            if n == "end":
                return [(E.AV(E.POS, None, ("end", "m")), st)]
            if n in ("contains", "count"):
                self.n += 1
                return [(E.TRUE, st.set("#it:m", E.AV(E.POS, "open"))),
                        (E.FALSE, st.set("#it:m", E.AV(E.POS, "done")))]
            if n in ("insert_or_assign", "erase", "clear", "extract",
                     "swap"):
                if not self.absent(st):
                    self.complain(f, e, "a node in use can be replaced")
                return [(E.UNK, st)]
            if n in ("emplace", "try_emplace", "insert"):
                return [(E.UNK, st.set("#ins", E.const(
                    int(self.absent(st)))))]
            if n == "operator[]":
                return [(E.AV(E.TOP, None, ("slot",)), st)]
        if n in ("operator=", "reset") and eng.val(
                f, o, st).tag == ("slot",):
            if not self.absent(st):
                self.complain(f, e, "a node in use can be replaced")
            return [(E.UNK, st.set("#ins", E.TRUE))]
        return None


def map_rule(fx, rep):
    n = 0
    for name in ("GetOrCreateNode",):
        for f in in_class(fx, "AsyncMap", name):
            pol = Map(f)
            outs = [o for o in E.Engine(fx, pol).run(
                f, E.State({}, frozenset())) if o.how == "ret"]
            n += pol.n

            def ob(ok, why, f=f, name=name):
                rep.ob(f"map:{name}:{why[:40]}", ok,
                       f"{f.file}:{f.line}: AsyncMap::{name}: {why}",
                       f"AsyncMap::{name}: {why} -- excluded on all paths")
            ob(bool(outs), "there is a way to the end")
            for g, e, why in pol.bad:
                ob(False, why)
            for o in outs:
                ob(o.val.s != E.ZERO, "no node is returned")
                ob(o.val.tag != ("new",) or pol.state(
                    o.st, "#ins") == 1, "a node is returned that may not be "
                   "the one in the table")
    rep.count("lookups in tables of nodes", n, 20)


# ----------------------------------------------------------------- traversal
class Trav(Flow):
    stop = ("QueueVisit", "QueueProcessing", "NotifyAvailable", "Abort",
            "Visit", "Traverse")

    def __init__(self, cls):
        super().__init__()
        self.cls = cls

    def fork(self, st, k):
        return [(E.TRUE, st.set(k, E.const(1))), (E.FALSE, st.set(
            k, E.const(0)))]

    def event(self, eng, f, e, fn, n, st, depth):
        a, o = e.get("a", ()), e.get("o")
        if fn.endswith("TaskSystem::QueueTask"):
            t = self.tag(eng, f, a[0], st)
            if t and t[0] == "lam":
                env = {k: v for k, v in st.env.items()
                       if isinstance(k, str) and not k.startswith("#")}
                self.closures.setdefault("task", []).append((t[1], env))
            else:
                self.complain(f, e, "the task queued could not be told")
            return [(E.UNK, self.add(st, "#task"))]
        if fn.endswith("TaskSystem::Shutdown"):
            return [(E.UNK, self.add(st, "#shut"))]
        if o is None or e["op"] != "call":
            return None
        if n in ("QueueVisit", "QueueProcessing", "NotifyAvailable",
                 "Visit") and a and eng.path(f, o, st) == "this":
            t = self.tag(eng, f, a[0], st)
            if n != "Visit" and t and t[0] == "elem":
                owe = self.num(st, "#owe")
                if n == "QueueProcessing" and not owe:
                    self.complain(f, e, "a node is processed before it is "
                                  "ready")
                st = self.handle(st.set("#owe", E.UNK), t[1])
            if not (t and t[0] in ("node", "elem", "builder")):
                self.complain(f, e, f"{n} of an unknown node")
                return [(E.UNK, st)]
            if n == "QueueProcessing" and t[0] == "node" or \
                    n == "QueueVisit" and t[0] == "builder":
                if st.env.get("#required") is None:
                    self.complain(f, e, f"{n} of a node not yet marked as "
                                  "required")
            return [(E.UNK, self.add(st, f"#{n}:{t[0]}"))]
        if n == "Abort":
            return [(E.UNK, self.add(st, "#abort"))]
        if n == "Process":
            if self.tag(eng, f, a[0], st) != ("node",):
                self.complain(f, e, "another node is processed")
            return self.fork(st, "#ok")
        t = self.tag(eng, f, o, st)
        if n in ("TraversalState",):
            return [(E.AV(E.POS, None, t), st)]
        if n in ("Children", "Parents"):
            return [(E.AV(E.POS, None, ("cont", n.lower())), st)]
        if n == "BuilderActionNode":
            return [(E.AV(E.POS, None, ("builder",)), st)]
        if n == "HasBuilderAction":
            return self.fork(st, "#hasb")
        if n in ("GetAndMarkDiscovered", "GetAndMarkQueuedToBeProcessed"):
            if t != ("node",):
                self.complain(f, e, "another node is marked")
            st = self.add(st, "#marks")
            return self.fork(st, "#mark:" + n)
        if n == "IsRequired":
            return self.fork(st, "#isreq")
        if n == "MarkRequired":
            if t != ("node",):
                self.complain(f, e, "another node is marked as required")
            return [(E.UNK, st.set("#required", E.TRUE))]
        if n == "MakeAvailable":
            if t != ("node",):
                self.complain(f, e, "another node is made available")
            return [(E.UNK, st.set("#made", E.TRUE))]
        if n == "IsAvailable":
            if t and t[0] == "elem":
                return [(E.TRUE, self.handle(st, t[1])), (E.FALSE, st)]
            return self.fork(st, "#avail")
        if n == "IsReady":
            if st.env.get("#required") is None:
                self.complain(f, e, "readiness is tested before the node is "
                              "marked as required")
            return self.fork(st, "#ready")
        if n == "NotifyAvailableDepAndCheckReady":
            if not (t and t[0] == "elem"):
                self.complain(f, e, "an unknown action is notified")
                return [(E.UNK, st)]
            if self.state(st, "#el:" + t[1]) != "taken" or self.num(
                    st, "#owe"):
                self.complain(f, e, "an action is notified twice")
            return [(E.TRUE, st.set("#owe", E.const(1))),
                    (E.FALSE, self.handle(st, t[1]))]
        if n == "ArtifactNodeWithId":
            x = self.tag(eng, f, a[0], st)
            return [(E.AV(E.POS, None, x), st),
                    (E.AV(E.ZERO, None, x), st.set("#none", E.TRUE))]
        return None

    def fail_flag(self, st):
        for k, v in st.env.items():
            if isinstance(k, str) and k.startswith("#a:") and v.s == E.POS:
                return True
        return False


def trav_outs(fx, f, env, cls=None):
    pol = Trav(cls or f.cls)
    outs = [o for o in E.Engine(fx, pol).run(f, E.State(env, frozenset()))
            if o.how == "ret"]
    return pol, outs


def traverser_rule(fx, rep):
    n = 0
    node = E.AV(E.POS, None, ("node",))
    for name in ("QueueVisit", "QueueProcessing", "Abort", "Visit",
                 "NotifyAvailable", "Traverse"):
        for f in in_class(fx, "Traverser", name):
            def ob(ok, why, f=f, name=name):
                rep.ob(f"traverser:{name}:{why[:40]}", ok,
                       f"{f.file}:{f.line}: Traverser::{name}: {why}",
                       f"Traverser::{name}: {why} -- excluded on all paths")
            if name == "Traverse" and not f.params:
                continue
            env = {}
            if f.params:
                env[f.params[0][0]] = node if name != "Traverse" else E.AV(
                    E.POS, None, ("cont", "targets"))
            action = bool(f.params) and "ActionNode" in ptype(
                f, f.params[0])
            pol, outs = trav_outs(fx, f, env)
            n += 1
            ob(bool(outs), "there is a way to the end")
            if name != "Traverse":
                pol.finish(f, outs)
            for g, e, why in pol.bad:
                ob(False, why)
            for o in outs:
                st = o.st
                q = pol.num(st, "#task")
                if name == "QueueVisit":
                    m = pol.state(st, "#mark:GetAndMarkDiscovered")
                    ob(m is not None or pol.fail_flag(st), "a visit is "
                       "dropped")
                    ob(q == (1 if m == 0 else 0), "a visit is dropped or "
                       "queued again")
                elif name == "QueueProcessing":
                    m = pol.state(st, "#mark:GetAndMarkQueuedToBeProcessed")
                    ob(m is not None or pol.fail_flag(st) or pol.state(
                        st, "#isreq") == 0, "the processing of a node that "
                       "is required is dropped")
                    ob(m is None or pol.state(st, "#isreq") == 1, "a node "
                       "that is not required is marked as processed")
                    ob(q == (1 if m == 0 else 0), "the processing is "
                       "dropped or queued again")
                elif name == "Abort":
                    ob(pol.fail_flag(st), "the failure is not recorded")
                    ob(pol.num(st, "#shut") == 1, "pending tasks are not "
                       "skipped")
                elif name == "Visit":
                    ob(st.env.get("#required") is not None or pol.state(
                        st, "#avail") == 1, "a node visited is not marked "
                       "as required")
                    own = pol.num(st, "#QueueProcessing:node")
                    if action:
                        ob(pol.all_of(st, "children"), "a dependency is "
                           "not visited")
                        ob(pol.state(st, "#ready") is not None, "a node "
                           "that is ready is not processed")
                        ob(own == (1 if pol.state(st, "#ready") else 0),
                           "a node is processed if and only if it is ready")
                        continue
                    b = pol.num(st, "#QueueVisit:builder")
                    if pol.state(st, "#avail") == 1:
                        continue
                    hb = pol.state(st, "#hasb")
                    ob(hb is not None, "nothing provides the artifact")
                    ob(b == (1 if hb else 0), "the action that builds the "
                       "artifact is not visited")
                    ob(own == (0 if hb else 1), "an artifact without action "
                       "is processed")
                elif name == "NotifyAvailable":
                    ob(pol.all_of(st, "parents"), "a dependent is not "
                       "notified")
                    if not action:
                        ob(st.env.get("#made") is not None, "the artifact "
                           "is not made available")
                else:
                    v = o.val.s
                    ob(v in (E.POS, E.ZERO), "the result is definite")
                    if v == E.POS:
                        ob(pol.all_of(st, "targets") and st.env.get(
                            "#none") is None, "a target is not visited "
                           "although success is reported")
                        ob(not pol.num(st, "#abort"), "success is reported "
                           "after an abort")
                    else:
                        ob(pol.num(st, "#abort") >= 1, "a failure does not "
                           "abort the traversal")
            for k, env2 in pol.closures.get("task", ()):
                g = fx.func(k)
                p2, o2s = trav_outs(fx, g, env2, f.cls)
                ob(bool(o2s), "the task does something")
                for _, _, why in p2.bad:
                    ob(False, why)
                for o2 in o2s:
                    if name == "QueueVisit":
                        ob(p2.num(o2.st, "#Visit:node") == 1, "the task "
                           "does not visit the node")
                        continue
                    ok = p2.state(o2.st, "#ok")
                    ob(ok is not None, "the node is not processed")
                    ob(p2.num(o2.st, "#NotifyAvailable:node") ==
                       (1 if ok else 0), "dependents are notified if and "
                       "only if the node was processed")
                    ob(p2.num(o2.st, "#abort") == (0 if ok else 1),
                       "the traversal is aborted if and only if a node "
                       "failed")
    rep.count("methods of the traverser followed", n, 8)


def states_rule(fx, rep):
    """The marks and counters of the nodes."""
    n = 0

    def run1(f, old, args=()):
        pol = Trav(f.cls)
        env = {}
        fields = set()
        for e in f.elems():
            if e["op"] == "mem" and "atomic" in f.t(e):
                fields.add(e["m"])
        for x in fields:
            env["#c:this." + x] = E.const(old)
        for p, v in zip(f.params, args):
            env[p[0]] = E.const(v)
        outs = [o for o in E.Engine(fx, pol).run(
            f, E.State(env, frozenset())) if o.how == "ret"]
        return {(o.val.c if o.val.c is not None else o.val.s == E.POS
                 if o.val.s in (E.POS, E.ZERO) else None,
                 tuple(o.st.get("#c:this." + x).c for x in sorted(fields)))
                for o in outs}, len(fields)
    # method: (initial, arguments) -> (result, value afterwards)
    spec = {
        "GetAndMarkDiscovered": [((0, ()), (0, 1)), ((1, ()), (1, 1))],
        "GetAndMarkQueuedToBeProcessed": [((0, ()), (0, 1)),
                                          ((1, ()), (1, 1))],
        "IsRequired": [((0, ()), (0, 0)), ((1, ()), (1, 1))],
        "MarkRequired": [((0, ()), (None, 1)), ((1, ()), (None, 1))],
        "IsAvailable": [((0, ()), (0, 0)), ((1, ()), (1, 1))],
        "MakeAvailable": [((0, ()), (None, 1)), ((1, ()), (None, 1))],
        "IsReady": [((0, ()), (1, 0)), ((1, ()), (0, 1)),
                    ((2, ()), (0, 2)), ((-1, ()), (0, -1))],
        "NotifyAvailableDepAndCheckReady": [
            ((1, ()), (1, 0)), ((2, ()), (0, 1)), ((3, ()), (0, 2))],
        "InitUnavailableDeps": [((-1, (0,)), (None, 0)),
                                ((-1, (3,)), (None, 3))],
    }
    owners = {"NodeTraversalState", "ActionNodeTraversalState",
              "ArtifactNodeTraversalState"}
    for name, rows in spec.items():
        fs = [f for f in fx.funcs() if f.name == name and f.cls and
              F.plain(f.cls).rsplit("::", 1)[-1] in owners and f.blocks]
        if not fs:
            raise F.AnalysisError("anchor vanished: " + name)
        for f in fs:
            for (old, args), (res, new) in rows:
                got, k = run1(f, old, args)
                n += 1
                ok = len(got) == 1
                for r, vals in got:
                    ok = ok and (res is None or (r is not None and
                                                 int(r) == res))
                    ok = ok and vals == (new,)
                rep.ob(f"state:{name}", ok,
                       f"{f.file}:{f.line}: {name} with {old}{args or ''} "
                       f"gives {sorted(map(str, got))}, expected {res}, "
                       f"then {new}",
                       f"{name}: {old} -> result {res}, state {new}")
    for f in fx.funcs():
        if f.name == "NotifyDoneLinking" and f.blocks:
            seen = []

            class Link(Trav):
                def event(self, eng, f, e, fn, nm, st, depth):
                    if nm == "InitUnavailableDeps":
                        seen.append(self.tag(eng, f, e["a"][0], st))
                        return [(E.UNK, st)]
                    if nm == "Children":
                        return [(E.AV(E.POS, None, ("cont", "children")),
                                 st)]
                    return None
            E.Engine(fx, Link(f.cls)).run(f, E.State({}, frozenset()))
            if not seen:
                continue
            n += 1
            rep.ob("state:NotifyDoneLinking", all(
                t == ("size", "children") for t in seen),
                f"{f.file}:{f.line}: the number of dependencies to wait for "
                "is not that of the action",
                "NotifyDoneLinking: waits for all children")
    rep.count("cases of traversal states", n, 18)


# ------------------------------------------------- results of local tasks
SAFE = re.compile(r"\bstd::(atomic|mutex|shared_mutex|condition_variable|"
                  r"once_flag)|\bconst\b[^<]*$|^const ")


def handed_closures(f, e, ts):
    """Closures given to a local task system by a call."""
    if e["op"] != "call":
        return []
    args = list(e.get("a", ()))
    if F.plain(e.get("fn", "")).endswith("TaskSystem::QueueTask"):
        if refers(f, e.get("o"), ts) is None:
            return []
    elif not any(refers(f, a, ts) for a in args):
        return []
    out = []
    todo, seen = args, set()
    while todo:
        i = todo.pop()
        if i in seen or i is None or i < 0:
            continue
        seen.add(i)
        x = f.el.get(i)
        if x is None:
            continue
        if x["op"] == "lambda":
            out.append(x)
            continue
        if x["op"] == "ref" and x.get("k") == "l":
            # a closure with a name
            for y in f.elems():
                for d in y.get("d", ()):
                    if d["v"] == x["v"] and d.get("i") is not None:
                        z = f.el.get(d["i"])
                        if z is not None and z["op"] in ("lambda", "ctor"):
                            todo.append(d["i"])
            continue
        if x["op"] in ("ctor", "cast", "call", "un"):
            todo.extend(x.get("a", ()))
    return out


def refers(f, eid, v, depth=0):
    e = f.el.get(eid)
    while e is not None and depth < 20:
        depth += 1
        if e["op"] == "ref":
            return True if e.get("v") == v else None
        if e["op"] == "call" and e.get("o") is not None:
            e = f.el.get(e["o"])
        elif e.get("a") and e["op"] in ("un", "cast", "ctor", "call"):
            e = f.el.get(e["a"][0])
        else:
            return None
    return None


def results_rule(fx, rep):
    n = m = 0
    for f in fx.funcs():
        if f.file.startswith("test/"):
            continue
        tss = [d["v"] for e in f.elems() if e["op"] == "decl"
               for d in e["d"] if f.types[d["t"]].replace(
                   "const ", "") == "TaskSystem"]
        for ts in tss:
            m += 1
            gone = [e for e in f.elems() if e["op"] == "dtor" and
                    e.get("v") == ts]
            born = [e for e in f.elems() if e["op"] == "decl" and any(
                d["v"] == ts for d in e["d"])][0]
            alive = after(f, born, gone)
            types = {}
            for e in f.elems():
                for d in e.get("d", ()):
                    types[d["v"]] = (f.types[d["t"]], e)
            caught = set()
            for x in f.elems():
                if x["op"] == "lambda":
                    caught |= {c["i"] for c in x.get("caps", ())
                               if c.get("i") is not None}
            for e in f.elems():
                for lam in handed_closures(f, e, ts):
                    shared = {c["v"] for c in lam.get("caps", ())
                              if c.get("ref") and c.get("v") in types and
                              not SAFE.search(types[c["v"]][0])}
                    during = after(f, e, gone)
                    for v in shared:
                        n += 1
                        name = v.split("@")[0]
                        rep.ob(f"results:{f.file}:{F.plain(f.short())}:"
                               f"{name}:lives",
                               types[v][1]["i"] not in alive,
                               f"{f.loc(types[v][1])}: {name} does not live "
                               "as long as the tasks that use it",
                               f"{f.file} {name}: outlives the tasks")
                        use = [x for x in f.elems() if x["op"] == "ref" and
                               x.get("v") == v and x["i"] in during and
                               x["i"] not in caught]
                        rep.ob(f"results:{f.file}:{F.plain(f.short())}:"
                               f"{name}:used", not use,
                               f"{f.loc(use[0]) if use else ''}: {name} is "
                               "used while tasks may still change it",
                               f"{f.file} {name}: used only when all tasks "
                               "are done")
    rep.count("local task systems", m, 3)
    rep.count("variables that tasks of local task systems use", n, 6)


def after(f, e, ends):
    """Elements that can follow one, up to one of the ends."""
    ends = {x["i"] for x in ends}
    out = set()
    todo = [(e["B"], e["i"])]
    seen = set()
    while todo:
        bid, start = todo.pop()
        b = f.blocks.get(bid)
        if b is None:
            continue
        on = start is None
        stopped = False
        for x in b["e"]:
            if not on:
                on = x["i"] == start
                continue
            if x["i"] in ends:
                stopped = True
                break
            out.add(x["i"])
        if not stopped:
            for t in b["s"]:
                if t not in seen:
                    seen.add(t)
                    todo.append((t, None))
    return out


def run(fx, rep):
    rep.rule("a task awaiting a node is run once, after the node has its "
             "value, or dropped if the node failed; tasks for the failure "
             "are run if and only if it failed")
    rep.rule("a consumer is run once, when all nodes it needs are ready; "
             "the failure of one of them is passed on")
    rep.rule("there is one node for each key, and it is processed once")
    rep.rule("each node of a graph is visited and processed once, if it is "
             "required and all its dependencies are available")
    rep.rule("variables that tasks of a local task system use outlive it "
             "and are not touched before it is done")
    node_rule(fx, rep)
    consumer_rule(fx, rep)
    map_rule(fx, rep)
    states_rule(fx, rep)
    traverser_rule(fx, rep)
    results_rule(fx, rep)
