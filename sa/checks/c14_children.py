"""Child processes do what they were started for, and how they ended is
reported.

Every function from which a process is forked is evaluated for the child, for
a failed fork and for the parent, there for every way in which the child can
end (statuses of waitpid). In the child each failing step is followed up; what
is executed with which descriptors, directory, arguments and environment is
traced back to the parameters."""
import os
import engine as E
import facts as F
import lib
import prov as PV

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "waitpid, fork, dup2, chdir and exec behave as POSIX says; the encoding "
    "of the wait status is that of Linux",
    "local and remote execution of actions (they need protobuf code) are not "
    "part of the analysed build",
]
EXEC = {"execvpe": 2, "execve": 2, "execv": None, "execvp": None,
        "fexecve": 2}
EXIT = ("_Exit", "std::_Exit", "_exit", "System::ExitWithoutCleanup")
PID = 4242
# how the child can end -> how the parent reports it
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
CODES = range(256) if THOROUGH else (0, 1, 2, 3, 64, 126, 127, 128, 255)
SIGNALS = range(1, 65) if THOROUGH else range(1, 32)
ENDS = [(f"exit {c}", c << 8, c) for c in CODES] + [
    (f"signal {s}", s, 128 + s) for s in SIGNALS] + [
    (f"signal {s} with core", s | 128, 128 + s)
    for s in (SIGNALS if THOROUGH else (3, 6, 11))]
STOPPED = 0x137f
# calls that are safe between fork and exec in a process with threads
SAFE = {"open", "openat", "close", "read", "write", "lseek", "fsync", "dup",
        "dup2", "dup3", "chdir", "fchdir", "fchmod", "fstat", "stat", "lstat",
        "unlink", "umask", "_exit", "_Exit", "std::_Exit", "sendfile",
        "splice", "copy_file_range", "signal", "sigaction", "setpgid",
        "setsid", "getpid", "fcntl", "ioctl", "ftruncate", "posix_fadvise",
        "__errno_location", "strlen", "memcpy", "memset", "strcmp", "strerror",
        "printf", "perror", "fprintf", "puts", "fputs", "dprintf",
        "fflush", "waitpid", "kill", "prctl", "close_range", "getppid",
        "fileno", "sigprocmask", "pthread_sigmask", "std::strerror",
        "std::printf", "std::perror", "std::forward", "std::move",
        "std::invoke", "std::min", "std::max", "std::addressof"} | set(EXEC)


def fn(e):
    return F.plain(e.get("fn", ""))


def last(e):
    return fn(e).rsplit("::", 1)[-1]


class Cx:

    def __init__(self, fx, rep):
        self.fx, self.rep = fx, rep
        self.P = PV.Prov(fx)
        self._calls = None
        self.rel = self.relevant()

    def callers(self, key):
        if self._calls is None:
            c = self._calls = {}
            for f in self.fx.funcs():
                for e in f.elems():
                    if e["op"] in ("call", "ctor") and e.get("fk"):
                        c.setdefault(e["fk"], []).append((f, e))
        return self._calls.get(key, ())

    def relevant(self):
        """Functions from which fork or exec is reached within their file."""
        rel, calls = set(), {}
        for f in self.fx.funcs():
            for e in f.elems():
                if e["op"] != "call":
                    continue
                if fn(e) in ("fork", "vfork", "waitpid") or fn(e) in EXEC:
                    rel.add(f.key)
                if e.get("fk"):
                    calls.setdefault(e["fk"], set()).add(f.key)
                if e.get("o") is not None:
                    pass
        todo = list(rel)
        while todo:
            k = todo.pop()
            f = self.fx.func(k)
            for c in calls.get(k, ()):
                g = self.fx.func(c)
                if c not in rel and g.file == f.file:
                    rel.add(c)
                    todo.append(c)
            if f.kind == "lambda" and f.par and f.par not in rel and \
                    self.fx.has(f.par):
                rel.add(f.par)
                todo.append(f.par)
        return rel

    def lift(self, f, eid, depth=0, seen=None):
        """Provenance with parameters replaced by what callers give."""
        seen = set() if seen is None else seen
        out = set()
        for a in self.P.of(f, eid):
            if a[0] != "p":
                out.add(a)
                continue
            if a[:3] in seen:
                continue
            seen.add(a[:3])
            cs = [c for c in self.callers(a[1])
                  if c[0].key in self.rel and a[2] < len(c[1].get("a", ()))]
            if not cs or depth > 5:
                out.add(a)
            for g, c in cs:
                out |= self.lift(g, c["a"][a[2]], depth + 1, seen)
        return out


    def flow(self, f, eid, seen=None):
        """Parameters of the entry points that a value is put together
        from: operands of what it is computed from, the initializer of a
        variable and what is assigned or appended to it; parameters of
        functions with callers here are what those give."""
        seen = set() if seen is None else seen
        out, todo = set(), [(f, eid)]
        while todo:
            f, i = todo.pop()
            if i is None or i < 0 or (f.key, i) in seen:
                continue
            seen.add((f.key, i))
            e = f.el.get(i)
            if e is None:
                continue
            if e["op"] != "ref":
                todo += [(f, c) for c in E.Engine.children(e)]
                continue
            v = e.get("v")
            own = [p for p in f.params if p[0] == v]
            root = self.P.outer(f)
            if not own:
                own = [p for p in root.params if p[0] == v]
            if own:
                g = f if own[0] in f.params else root
                j = [p[0] for p in g.params].index(v)
                if (g.key, v) in seen:
                    continue
                seen.add((g.key, v))
                cs = [c for c in self.callers(g.key) if c[0].key in self.rel
                      and j < len(c[1].get("a", ()))]
                if not cs:
                    out.add((g.key, j))
                todo += [(h, c["a"][j]) for h, c in cs]
            for h in self.P.nest(root):
                for x in h.elems():
                    if x["op"] == "decl":
                        todo += [(h, d["i"]) for d in x["d"]
                                 if d["v"] == v and d.get("i") is not None]
                    elif x["op"] == "asg" and self.is_var(h, x["a"][0], v):
                        todo.append((h, x["a"][1]))
                    elif x["op"] != "call":
                        continue
                    elif x.get("o") is not None and not x.get("cst") and \
                            self.is_var(h, x["o"], v):
                        todo += [(h, a) for a in x.get("a", ())]
                    elif last(x) in ("transform", "copy", "copy_if",
                                     "move", "for_each") and any(
                            self.inserts(h, a, v)
                            for a in x.get("a", ())):
                        todo += [(h, a) for a in x["a"]]
        return out

    @staticmethod
    def is_var(f, i, v):
        e = f.el.get(i)
        while e is not None and e["op"] in ("cast", "idx"):
            e = f.el.get(e["a"][0])
        return e is not None and e["op"] == "ref" and e.get("v") == v

    def inserts(self, f, i, v):
        e = f.el.get(i)
        while e is not None and e["op"] in ("cast", "ctor") and e.get("a"):
            e = f.el.get(e["a"][0])
        return e is not None and e["op"] == "call" and last(e) in (
            "back_inserter", "inserter", "begin") and (
                any(self.is_var(f, a, v) for a in e.get("a", ())) or
                e.get("o") is not None and self.is_var(f, e["o"], v))


class Child(lib.EvalPolicy):
    """Evaluates with given outcomes of the system calls."""
    max_depth = 8

    def __init__(self, cx, fork, status=(), fail=None, waitfail=False):
        super().__init__()
        self.cx, self.fork, self.status = cx, fork, status
        self.fail, self.waitfail = fail, waitfail
        self.bad = {}
        self.exits, self.execs = [], []

    def note(self, f, e, text):
        self.bad.setdefault((f.key, e["i"], text), (f, e, text))

    def inline(self, eng, f, e, g, st, depth):
        return g.key in self.cx.rel or g.kind == "lambda" and \
            g.file == f.file and not last(e).startswith("operator<<")

    def elem(self, eng, f, e, st):
        return None

    def call(self, eng, f, e, st, depth):
        n = fn(e)
        a = e.get("a", ())
        ts = st.ts
        child = "child" in ts
        if n in ("fork", "vfork"):
            if "forked" in ts:
                return []
            v = {"child": 0, "parent": PID, "failed": -1}[self.fork]
            return [(E.const(v), st.with_ts(ts | {"forked", self.fork}))]
        if n == "waitpid" or n == "wait":
            p = eng.val(f, a[0], st).c if n == "waitpid" else -1
            if child:
                self.note(f, e, "the child waits for a process")
            elif "parent" not in ts:
                self.note(f, e, "waits although no process was forked")
            elif p != PID:
                self.note(f, e, "waits for another process than the one "
                          "that was forked")
            k = sum(1 for x in ts if isinstance(x, tuple) and
                    x[0] == "wait")
            opt = eng.val(f, a[2], st).c if n == "waitpid" and len(
                a) > 2 else None
            if isinstance(opt, int) and opt & 1 and "early" not in ts:
                # not ended yet, and not asked to wait for that
                return [(E.const(0), st.with_ts(ts | {"early"}))]
            if self.waitfail:
                return [(E.const(-1), st.with_ts(ts | {("wait", k)}))]
            if k >= len(self.status):
                if k > len(self.status) + 1:
                    return []
                self.note(f, e, "waits again for a process that has ended")
                return []
            s = a[1] if n == "waitpid" else a[0]
            ap = eng.path(f, s, st)
            v = eng.val(f, s, st)
            ap = v.al or ap
            st = st.with_ts(ts | {("wait", k)})
            if ap is not None:
                st = st.set(ap, E.const(self.status[k]))
            return [(E.const(PID), st)]
        if n in EXIT or last(e) in ("_exit", "_Exit", "quick_exit"):
            if child:
                self.exits.append((f, e, eng.val(f, a[0], st), ts))
                return []
            if "forked" in ts and self.fork == "parent":
                self.note(f, e, "the parent exits")
            return []
        if child and n in ("exit", "std::exit", "abort", "std::abort",
                           "std::terminate"):
            self.note(f, e, "the child leaves by " + n + ", which runs what "
                      "belongs to the parent")
            return []
        if n in EXEC:
            self.execs.append((f, e, st))
            if child or "forked" in ts:
                return [(E.const(-1), st.with_ts(ts | {"execd"}))]
            return [(E.const(-1), st)]
        if child and n in ("dup2", "dup3", "chdir", "fchdir"):
            if self.fail == (f.key, e["i"]):
                return [(E.const(-1), st.with_ts(ts | {"setup failed"}))]
            t = eng.val(f, a[1], st).c if n.startswith("dup") else None
            ev = ("dup", t) if n.startswith("dup") else ("chdir", )
            return [(E.const(t if isinstance(t, int) else 0),
                     st.with_ts(ts | {ev}))]
        if child and n == "close":
            v = eng.val(f, a[0], st)
            t = v.c
            if t in (0, 1, 2) and ("dup", t) in ts:
                self.note(f, e, "closes a standard descriptor it has set up")
            return [(E.UNK, st.with_ts(ts | {("closed", eng.path(
                f, a[0], st))}))]
        if n in ("tmpfile", "std::tmpfile", "fopen", "std::fopen"):
            return [(E.AV(E.POS), st)]
        g = self.cx.fx.func(e["fk"]) if e.get("fk") and self.cx.fx.has(
            e["fk"]) else None
        if g is not None and self.inline(eng, f, e, g, st, depth):
            return None
        if n.startswith("Logger::") or n.startswith("fmt::"):
            return [(E.UNK, st)]
        return None


def roots(cx):
    """Functions to evaluate: the smallest ones in which a process is forked
    and waited for."""
    both = [cx.fx.func(k) for k in sorted(cx.rel)
            if cx.fx.func(k).kind != "lambda"]
    both = [f for f in both if reaches(cx, f, ("fork", "vfork")) and
            reaches(cx, f, ("waitpid", "wait"))]
    keys = {f.key for f in both}
    forks = [cx.fx.func(k) for k in sorted(cx.rel)
             if any(e["op"] == "call" and fn(e) in ("fork", "vfork")
                    for e in cx.fx.func(k).elems())]
    out = []
    for f in both:
        inner = {e.get("fk") for h in cx.P.nest(f) for e in h.elems()
                 if e["op"] == "call"} & keys - {f.key}
        if not inner:
            out.append(f)
    for f in forks:
        if not any(in_reach(cx, r, f) for r in out):
            out.append(f)
    return out


def reaches(cx, f, names, seen=None):
    seen = set() if seen is None else seen
    if f.key in seen:
        return False
    seen.add(f.key)
    for h in cx.P.nest(f):
        for e in h.elems():
            if e["op"] != "call":
                continue
            if fn(e) in names:
                return True
            if e.get("fk") in cx.rel and reaches(
                    cx, cx.fx.func(e["fk"]), names, seen):
                return True
    return False


def init(f):
    """Flags of the interface that ask for a child process are set."""
    env = {}
    for p in f.params:
        if p[2] == "bool":
            env[p[0]] = E.TRUE
    return env


def run_one(cx, f, pol):
    eng = E.Engine(cx.fx, pol)
    eng.counting = True
    return eng.run(f, E.State(init(f), frozenset()))


def report(cx, f, pol, name):
    bad = sorted(pol.bad.values(), key=lambda x: x[1]["i"])
    cx.rep.ob(f"{name}: {F.plain(f.q)}", not bad,
              "; ".join(f"{b[0].loc(b[1])}: {b[2]}" for b in bad[:3]),
              f"{f.loc()}: {name}")


def evaluate(cx, f):
    rep = cx.rep
    name = F.plain(f.q)
    # the child
    pol = Child(cx, "child")
    outs = run_one(cx, f, pol)
    left = [o for o in outs if "child" in o.st.ts]
    rep.ob(f"the child ends: {name}", not left and (pol.exits or pol.execs),
           f"{f.loc()}: the child process returns from the function and goes "
           "on as a second instance of the parent")
    report(cx, f, pol, "what the child does")
    for g, e, v, ts in pol.exits:
        if "execd" in ts:
            rep.ob(f"exit code after exec: {name}", not v.s & E.ZERO,
                   f"{g.loc(e)}: a child that could not execute the command "
                   "ends with success",
                   f"{g.loc(e)}: failed exec")
    # each step of setting up may fail
    steps = []
    for h in list(cx.P.nest(f)) + [x for k in cx.rel for x in cx.P.nest(
            cx.fx.func(k)) if cx.fx.func(k).file == f.file]:
        for e in h.elems():
            if e["op"] == "call" and fn(e) in ("dup2", "dup3", "chdir",
                                               "fchdir"):
                steps.append((h, e))
    done = set()
    for h, e in steps if pol.execs else ():
        if (h.key, e["i"]) in done:
            continue
        done.add((h.key, e["i"]))
        p2 = Child(cx, "child", fail=(h.key, e["i"]))
        o2 = run_one(cx, f, p2)
        bad = [x for x in p2.execs if "setup failed" in x[2].ts]
        rep.ob(f"failed {fn(e)} in {name}, line order "
               f"{sorted(done).index((h.key, e['i']))}", not bad,
               f"{h.loc(e)}: the command is executed although {fn(e)} "
               "failed", f"{h.loc(e)}: followed up")
        for g, x, v, ts in p2.exits:
            if "setup failed" in ts:
                rep.ob(f"exit code after failed set-up: {name}",
                       not v.s & E.ZERO,
                       f"{g.loc(x)}: a child that could not be set up ends "
                       "with success")
        rep.ob(f"the child ends (failed {fn(e)}): {name}",
               not [o for o in o2 if "child" in o.st.ts],
               f"{h.loc(e)}: the child returns after {fn(e)} failed")
    # fork failed
    pol = Child(cx, "failed")
    outs = run_one(cx, f, pol)
    ok = [o for o in outs if "failed" in o.st.ts and o.how == "ret" and
          not fails(f, o.val)]
    rep.ob(f"failed fork: {name}", not ok,
           f"{f.loc()}: success is reported although no process could be "
           "forked", f"{f.loc()}: failed fork")
    report(cx, f, pol, "after a failed fork")
    # the parent
    integer = "int" in f.ret
    for what, st, want in ENDS:
        for stops in ((), (STOPPED, ), (STOPPED, STOPPED)):
            if stops and (not integer or (st not in (0, 0x100))):
                continue
            pol = Child(cx, "parent", stops + (st, ))
            outs = run_one(cx, f, pol)
            n = len(stops) + 1
            good = True
            text = ""
            seen = 0
            for o in outs:
                if "parent" not in o.st.ts or o.how != "ret":
                    continue
                seen += 1
                w = sum(1 for x in o.st.ts if isinstance(x, tuple) and
                        x[0] == "wait")
                if w < n:
                    good, text = False, (
                        "returns without having waited for the process" if
                        not w else "returns although the process was only "
                        "stopped")
                elif integer:
                    v = o.val.c
                    v = v[1] if isinstance(v, tuple) else v
                    if v is None and o.val.s == E.ZERO and want != 0:
                        continue        # reported as a failure to execute
                    if v != want:
                        good, text = False, f"reports {v} for {what}"
                elif st == 0:
                    if not may_succeed(f, o.val):
                        good, text = False, f"reports failure for {what}"
                elif not fails(f, o.val):
                    good, text = False, f"reports success for {what}"
            rep.ob(f"{what}{' after stops' if stops else ''} "
                   f"({len(stops)}): {name}", good and seen > 0,
                   f"{f.loc()}: {text or 'no outcome'}",
                   f"{f.loc()}: {what}")
            report(cx, f, pol, f"parent, {what} ({len(stops)})")
    pol = Child(cx, "parent", (0, ), waitfail=True)
    outs = run_one(cx, f, pol)
    bad = [o for o in outs if "parent" in o.st.ts and o.how == "ret" and
           not fails(f, o.val)]
    rep.ob(f"failed wait: {name}", not bad,
           f"{f.loc()}: success is reported although the end of the process "
           "is not known")


def fails(f, v):
    """The value signals failure for sure."""
    if "optional" in f.ret:
        if isinstance(v.c, tuple):
            return v.c[1] not in (0, None) and v.c[0] != "none"
        return v.s == E.ZERO
    if f.ret == "bool":
        return v.s == E.ZERO
    return not v.s & E.ZERO


def may_succeed(f, v):
    return bool(v.s & E.POS)


def descriptors(cx):
    """What becomes standard input, output and error of a command, where and
    with which arguments and environment it is executed."""
    rep = cx.rep
    n = 0
    for k in sorted(cx.rel):
        f = cx.fx.func(k)
        for e in f.elems():
            if e["op"] != "call":
                continue
            if fn(e) in ("dup2", "dup3"):
                x = f.el.get(e["a"][1], {})
                t = x.get("val")
                if t is None:
                    continue
                at = cx.lift(f, e["a"][0])
                lits = {a[1] for a in at if a[0] == "lit"}
                fns = {a[1].rsplit("::", 1)[-1] for a in at if a[0] == "fn"}
                n += 1
                if t == 0:
                    ok = bool(fns & {"tmpfile", "mkstemp", "memfd_create"} or
                              "/dev/null" in lits) and not lits & {
                                  "stdout", "stderr"}
                    rep.ob("standard input", ok,
                           f"{f.loc(e)}: standard input is not an empty "
                           "file of its own")
                elif t in (1, 2):
                    own, other = ("stdout", "stderr") if t == 1 else (
                        "stderr", "stdout")
                    rep.ob(f"standard descriptor {t}", own in lits and
                           other not in lits,
                           f"{f.loc(e)}: descriptor {t} is not the file "
                           f"for {own}", f"{f.loc(e)}: {own}")
            if fn(e) in EXEC and forked(cx, f):
                n += 1
                prog = cx.flow(f, e["a"][0])
                argv = cx.flow(f, e["a"][1])
                rep.ob("environment is given", EXEC[fn(e)] is not None,
                       f"{f.loc(e)}: {fn(e)} passes on the environment of "
                       "just instead of the one asked for")

                def typed(ps, what):
                    return {p for p in ps if what in
                            cx.fx.func(p[0]).params[p[1]][2]}
                pa = typed(argv, "std::vector<")
                rep.ob("arguments are given", pa and
                       not typed(argv, "std::map<"),
                       f"{f.loc(e)}: the arguments are not those asked for")
                rep.ob("the program is the first argument", pa <= prog and
                       not typed(prog, "std::map<"),
                       f"{f.loc(e)}: executes something else than the first "
                       "argument")
                if EXEC[fn(e)] is not None:
                    env = cx.flow(f, e["a"][EXEC[fn(e)]])
                    rep.ob("environment is the one asked for",
                           typed(env, "std::map<") and not env & pa,
                           f"{f.loc(e)}: the environment is not the one "
                           "asked for")
            if fn(e) == "chdir":
                at = {p for p in cx.flow(f, e["a"][0]) if "filesystem::path"
                      in cx.fx.func(p[0]).params[p[1]][2]}
                n += 1
                ok = len(at) == 1 and not at & outputs(cx)
                rep.ob("working directory", ok,
                       f"{f.loc(e)}: the command is not executed in the "
                       "directory asked for")
    rep.count("descriptors, directories and commands", n, 1)
    # everything is set up when the command is executed
    for f in roots(cx):
        pol = Child(cx, "child")
        run_one(cx, f, pol)
        for g, e, st in pol.execs:
            dups = {x[1] for x in st.ts if isinstance(x, tuple) and
                    x[0] == "dup"}
            if None in dups:
                continue
            miss = {0, 1, 2} - dups
            rep.ob("descriptors are set up before exec", not miss,
                   f"{g.loc(e)}: the command is executed with descriptors "
                   f"{sorted(miss)} of just")
            rep.ob("directory is changed before exec",
                   ("chdir", ) in st.ts,
                   f"{g.loc(e)}: the command is executed in the directory "
                   "of just")


def forked(cx, f):
    """The function is part of what runs after a fork."""
    return any(reaches(cx, r, ("fork", "vfork")) and in_reach(cx, r, f)
               for r in roots(cx))


def in_reach(cx, r, f, seen=None):
    seen = set() if seen is None else seen
    if r.key == f.key:
        return True
    if r.key in seen:
        return False
    seen.add(r.key)
    for h in cx.P.nest(r):
        if h.key == f.key:
            return True
        for e in h.elems():
            if e["op"] == "call" and e.get("fk") in cx.rel and in_reach(
                    cx, cx.fx.func(e["fk"]), f, seen):
                return True
    return False


def outputs(cx):
    """Parameters from which the names of the output files are made."""
    out = set()
    for k in cx.rel:
        f = cx.fx.func(k)
        for e in f.elems():
            if e["op"] == "call" and fn(e) in ("dup2", "dup3"):
                out |= {p for p in cx.flow(f, e["a"][0])
                        if "filesystem::path" in
                        cx.fx.func(p[0]).params[p[1]][2]}
    return out


def safe(cx):
    """Between fork and exec (or the end of the child) nothing is called that
    may wait for a lock another thread held when the process was forked."""
    rep = cx.rep
    n = 0
    for k in sorted(cx.rel):
        f = cx.fx.func(k)
        forks = [e for e in f.elems() if e["op"] == "call" and
                 fn(e) in ("fork", "vfork")]
        if not forks:
            continue
        bad = {}
        seen = []

        class Pol(Child):

            def inline(self, eng, f2, e, g, st, depth):
                return "child" in st.ts and g.file.startswith("src/")

            def call(self, eng, f2, e, st, depth):
                if "child" in st.ts:
                    m = fn(e)
                    g = cx.fx.has(e.get("fk") or "")
                    seen.append(m)
                    if e.get("fk") in eng.active:
                        bad.setdefault((f2.key, e["i"]), (
                            f2, e, m + ", which is not for the child,"))
                    if m.startswith("Logger::") or (
                            not g and m not in SAFE and
                            m not in EXIT and heavy(m, f2, e)):
                        bad.setdefault((f2.key, e["i"]), (f2, e, m))
                return super().call(eng, f2, e, st, depth)

            def elem(self, eng, f2, e, st):
                if "child" in st.ts and e["op"] == "new":
                    bad.setdefault((f2.key, e["i"]), (f2, e, "new"))
                return super().elem(eng, f2, e, st)
        pol = Pol(cx, "child")
        E.Engine(cx.fx, pol).run(f, E.State(init(f), frozenset()))
        n += 1
        b = sorted(bad.values(), key=lambda x: x[1]["i"])
        rep.ob(f"calls of the child: {F.plain(f.q)}", not b,
               f"{b[0][0].loc(b[0][1])}: {b[0][2]} may wait forever for a "
               "lock another thread held at the fork" if b else "",
               f"{f.loc()}: {sorted(set(seen))}"[:200])
    rep.count("functions that fork", n, 2)


def heavy(m, f, e):
    """Library calls that allocate, lock or log."""
    if m.startswith(("std::basic_string", "std::vector", "std::map",
                     "std::filesystem::", "std::unordered", "std::function",
                     "std::shared", "std::make_", "std::to_string", "fmt::",
                     "std::basic_o", "std::operator<<", "std::mutex",
                     "std::unique_lock", "std::basic_f", "std::thread",
                     "nlohmann::")):
        n = m.rsplit("::", 1)[-1]
        if n in ("c_str", "data", "size", "empty", "begin", "end", "native",
                 "operator[]", "get", "operator bool", "operator->",
                 "operator*"):
            return False
        return True
    return m in ("malloc", "calloc", "realloc", "free", "fopen", "fclose",
                 "operator new", "std::fopen", "std::fclose", "syslog")


def terminated(cx):
    """Argument vectors end with a null pointer and hold what they are made
    of in its order."""
    n = 0
    for f in cx.fx.funcs():
        vs = {}
        for e in f.elems():
            if e["op"] == "decl":
                for d in e["d"]:
                    if "std::vector<char *>" in f.types[d["t"]].replace(
                            "const ", ""):
                        vs[d["v"]] = e
        if not vs or "src/" not in f.file:
            continue
        for v, decl in vs.items():
            pol = Term(v)
            outs = E.Engine(cx.fx, pol).run(f, E.State({}, frozenset()))
            fills = [o for o in outs if o.how == "ret"] if not pol.at_exec \
                else pol.at_exec
            if not pol.filled:
                continue
            n += 1
            bad = [o for o in fills if "null" not in o.st.ts] \
                if not pol.at_exec else [x for x in fills
                                         if "null" not in x]
            cx.rep.ob(f"null at the end: {F.plain(f.q)}", not bad,
                      f"{f.loc(decl)}: the argument vector does not end with "
                      "a null pointer", f"{f.loc(decl)}: ends with null")
    cx.rep.count("argument vectors", n, 2)


class Term(lib.EvalPolicy):

    def __init__(self, v):
        super().__init__()
        self.v, self.filled, self.at_exec = v, False, []

    def inline(self, eng, f, e, g, st, depth):
        return False

    def uses(self, f, eid, n=0):
        todo, seen = [eid], set()
        while todo:
            i = todo.pop()
            if i is None or i < 0 or i in seen:
                continue
            seen.add(i)
            e = f.el.get(i)
            if e is None:
                continue
            if e["op"] == "ref" and e.get("v") == self.v:
                return True
            todo.extend(E.Engine.children(e))
        return False

    def call(self, eng, f, e, st, depth):
        n = fn(e)
        k = last(e)
        if n in EXEC:
            self.at_exec.append(st.ts)
            return [(E.const(-1), st)]
        o = e.get("o")
        if o is not None and self.uses(f, o) and \
                "vector" in str(f.t(f.el.get(o, {}))):
            if k in ("push_back", "emplace_back"):
                self.filled = True
                v = eng.val(f, e["a"][0], st) if e.get("a") else E.V0
                if v.s == E.ZERO:
                    return [(E.UNK, st.with_ts(st.ts | {"null"}))]
                return [(E.UNK, st.with_ts(st.ts - {"null"}))]
            if k == "resize":
                self.filled = True      # appends null pointers
                return [(E.UNK, st.with_ts(st.ts | {"null"}))]
            if k in ("pop_back", "clear", "insert", "assign"):
                return [(E.UNK, st.with_ts(st.ts - {"null"}))]
        if k in ("transform", "copy", "for_each", "move") and any(
                self.uses(f, a) for a in e.get("a", ())):
            self.filled = True
            return [(E.UNK, st.with_ts(st.ts - {"null"}))]
        return None


def exits(cx):
    """The function that ends a child passes the code on."""
    n = 0
    for f in cx.fx.funcs():
        if f.q != "System::ExitWithoutCleanup":
            continue
        for val in (0, 1, 2, 77):
            got = []

            class Pol(lib.EvalPolicy):

                def call(self, eng, g, e, st, depth):
                    if last(e) in ("_Exit", "_exit", "quick_exit"):
                        got.append(eng.val(g, e["a"][0], st).c)
                        return []
                    if last(e) in ("exit", "abort", "terminate"):
                        got.append(fn(e))
                        return []
                    return None
            outs = E.Engine(cx.fx, Pol()).run(
                f, E.State({f.params[0][0]: E.const(val)}, frozenset()))
            n += 1
            cx.rep.ob(f"exit code {val}", got == [val] and not [
                o for o in outs if o.how == "ret"],
                f"{f.loc()}: ends with {got} instead of {val}")
    cx.rep.count("exit codes", n, 4)


def run(fx, rep):
    cx = Cx(fx, rep)
    for r in ("the child never returns, and fails when a step fails",
              "the parent waits for the child until it has ended and reports "
              "how", "the command has the descriptors, directory, arguments "
              "and environment asked for",
              "no call in the child can wait for a lock"):
        rep.rule(r)
    rs = roots(cx)
    if len(rs) < 2:
        raise F.AnalysisError("anchor vanished: fork")
    for f in rs:
        evaluate(cx, f)
    rep.count("entry points that fork", len(rs), 2)
    descriptors(cx)
    safe(cx)
    terminated(cx)
    exits(cx)
