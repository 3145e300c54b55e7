"""Options given to just-mr reach just, as the options they are.

The command line built by just-mr's launcher is compared with the options the
command line of just (and of just-mr itself) declares: which option is pushed,
with the value of which field, for which subcommands and under which
conditions."""
import engine as E
import facts as F
import lib
import prov as PV

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "the launched program is a just of the same version",
    "CLI11 stores the value of an option in the variable it was declared with",
]
ADD = ("add_option", "add_flag", "add_option_function", "add_flag_callback",
       "add_flag_function")
PUSH = ("emplace_back", "push_back")


def fn(e):
    return F.plain(e.get("fn", ""))


def last(e):
    return fn(e).rsplit("::", 1)[-1]


def text(f, i, n=0):
    """The literal a string is made of."""
    e = f.el.get(i, {})
    while n < 12:
        n += 1
        if e.get("op") == "str":
            return e.get("val")
        if e.get("op") in ("ctor", "cast", "mat", "list") and e.get("a"):
            e = f.el.get(e["a"][0], {})
        else:
            return None
    return None


def strip(f, i):
    """An element without copies, references and smart pointers."""
    for _ in range(30):
        e = f.el.get(i, {})
        if e.get("op") in ("cast", "mat", "un") and e.get("a"):
            i = e["a"][0]
        elif e.get("op") == "ctor" and len(e.get("a", ())) == 1:
            i = e["a"][0]
        elif e.get("op") == "call" and fn(e) in (
                "std::move", "std::forward", "std::cref", "std::ref"):
            i = e["a"][0]
        else:
            return i
    return i


class Cx:

    def __init__(self, fx, rep):
        self.fx, self.rep = fx, rep
        self.P = PV.Prov(fx)
        self._opts = {}
        self._inits = {}

    def inits(self, f):
        """Variable -> elements its value is made from."""
        if f.key not in self._inits:
            m = self._inits[f.key] = {}
            for e in f.elems():
                if e["op"] == "decl":
                    for d in e["d"]:
                        if "i" in d:
                            m.setdefault(d["v"], []).append(d["i"])
                elif e["op"] == "asg" or e.get("opk") == "=":
                    a = e.get("a", ())
                    t, v = (e["o"], a[0]) if e.get("o") is not None and \
                        len(a) == 1 else (a[0], a[-1])
                    r = f.el.get(strip(f, t), {})
                    if r.get("op") == "ref":
                        m.setdefault(r["v"], []).append(v)
        return self._inits[f.key]

    # ------------------------------------------------ declared options
    def fields(self, f, i):
        """Fields of argument structures an option stores into."""
        e = f.el.get(strip(f, i), {})
        if e.get("op") == "mem" and not e.get("isf"):
            return {e["m"]}
        if e.get("op") == "call" and e.get("o") is not None and \
                e.get("opk") in ("*", "->"):
            return self.fields(f, e["o"])
        if e.get("op") == "lambda" and self.fx.has(e.get("fk")):
            return self.stored(self.fx.func(e["fk"]))
        if e.get("op") == "ref" and e.get("k") == "l":
            for x in f.elems():
                if x["op"] == "decl":
                    for d in x["d"]:
                        if d["v"] == e["v"] and "i" in d:
                            return self.fields(f, d["i"])
        return set()

    def stored(self, g):
        out = set()

        def top(i):
            for _ in range(20):
                x = g.el.get(i, {})
                if x.get("op") == "mem" and not x.get("isf"):
                    out.add(x["m"])
                    return
                if x.get("op") == "mem":
                    i = x.get("b")
                elif x.get("op") == "call" and x.get("o") is not None:
                    i = x["o"]
                elif x.get("op") in ("un", "cast", "idx") and x.get("a"):
                    i = x["a"][0]
                else:
                    return
        for e in g.elems():
            if e["op"] == "asg":
                top(e["a"][0])
            elif e["op"] == "call" and e.get("o") is not None and not \
                    e.get("cst") and (last(e) in PUSH or e.get("opk") == "=" or
                                      last(e) in ("emplace", "insert",
                                                  "reset")):
                top(e["o"])
            elif e["op"] == "call" and e.get("opk") == "=" and e.get("a"):
                top(e["a"][0])
            if e["op"] == "call" and self.fx.has(e.get("fk") or "") and \
                    self.fx.func(e["fk"]).kind == "lambda":
                out |= self.stored(self.fx.func(e["fk"]))
        return out

    def options(self, f, seen=()):
        """[(names, fields, function, element)] a function declares."""
        if f.key in self._opts:
            return self._opts[f.key]
        out = []
        for g in self.P.nest(f):
            for e in g.elems():
                if e["op"] != "call":
                    continue
                if fn(e).startswith("CLI::") and last(e) in ADD and e["a"]:
                    s = text(g, e["a"][0])
                    if s is None:
                        continue
                    names = {x.strip() for x in s.split(",")}
                    fs = self.fields(g, e["a"][1]) if len(e["a"]) > 1 \
                        else set()
                    out.append((names, fs, g, e))
                elif self.fx.has(e.get("fk") or "") and e.get("a"):
                    h = self.fx.func(e["fk"])
                    if h.file.startswith("src/") and h.key not in seen and \
                            any("CLI::App" in self.fx_t(h, p)
                                for p in h.params):
                        out += self.options(h, seen + (f.key, ))
        self._opts[f.key] = out
        return out

    @staticmethod
    def fx_t(h, p):
        return h.types[p[2]] if isinstance(p[2], int) and p[2] >= 0 \
            else str(p[2])

    def subcommands(self):
        """Subcommand of just -> its options."""
        out = {}
        for f in self.fx.funcs():
            if f.kind == "lambda" or not f.file.startswith(
                    "src/buildtool/main/"):
                continue
            app = {}
            for e in f.elems():
                if e["op"] == "decl":
                    for d in e["d"]:
                        i = self.made(f, d.get("i"))
                        if i is not None:
                            app[d["v"]] = i
                elif e["op"] == "asg":
                    i = self.made(f, e["a"][1])
                    r = self.P.root(f, e["a"][0])
                    if i is not None and r:
                        app[r] = i
            for e in f.elems():
                if e["op"] != "call" or not e.get("a") or not \
                        self.fx.has(e.get("fk") or ""):
                    continue
                h = self.fx.func(e["fk"])
                if not h.params or "CLI::App" not in self.fx_t(
                        h, h.params[0]):
                    continue
                i = self.made(f, e["a"][0])
                if i is None:
                    i = app.get(self.P.root(f, e["a"][0]))
                if i is not None:
                    out.setdefault(i, []).extend(self.options(h))
        return out

    def made(self, f, i):
        """The name of the subcommand an expression makes."""
        for _ in range(20):
            e = f.el.get(i, {})
            if e.get("op") == "call" and last(e) == "add_subcommand" and \
                    e.get("a"):
                return text(f, e["a"][0])
            if e.get("op") == "call" and e.get("o") is not None:
                i = e["o"]
            elif e.get("op") in ("cast", "ctor", "un", "mat") and e.get("a"):
                i = e["a"][0]
            else:
                return None
        return None

    # ------------------------------------------------ what just-mr knows
    def table(self):
        """Subcommand -> {capability: bool}."""
        v = [(k, d) for k, d in self.fx.vars.items()
             if "JustSubCmdFlags" in self.type_of(d)]
        if not v:
            raise F.AnalysisError("anchor vanished: table of subcommands")
        names = [x["n"] for x in self.record("JustSubCmdFlags")]
        out = {}
        for _, d in v:
            el = {e["i"]: e for e in d["e"]}

            def flat(i):
                e = el.get(i, {})
                if e.get("op") == "list" or (
                        e.get("op") == "ctor" and len(e.get("a", ())) == 2):
                    return e.get("a", ())
                return ()

            def lit(i):
                for _ in range(8):
                    e = el.get(i, {})
                    if e.get("op") == "str":
                        return e["val"]
                    if not e.get("a"):
                        return None
                    i = e["a"][0]
                return None
            for e in d["e"]:
                a = e.get("a", ())
                if e["op"] == "list" and len(a) == len(names) and all(
                        isinstance(el.get(x, {}).get("val"), int)
                        for x in a):
                    row = {n: bool(el[x]["val"]) for n, x in zip(names, a)}
                    for o in d["e"]:
                        if e["i"] in o.get("a", ()) and lit(o["a"][0]):
                            out[lit(o["a"][0])] = row
        return out

    def type_of(self, d):
        t = d.get("t")
        return str(d["types"][t]) if isinstance(t, int) else ""

    def record(self, name):
        for k, r in self.fx.records.items():
            if k.rsplit("::", 1)[-1] == name or r.get("q") == name:
                return r["fields"]
        raise F.AnalysisError("anchor vanished: " + name)


class Launch(lib.EvalPolicy):
    """What is pushed onto the command line that is executed.

    given: fields (by path) that are set or not; flags: capabilities of the
    subcommand; watch: the option that is followed path by path."""
    max_depth = 6

    def __init__(self, cx, f, flags, watch=None):
        super().__init__()
        self.cx, self.f, self.flags, self.watch = cx, f, flags, watch
        self.params = {p[0] for p in f.params}
        self.pairs = {}         # option -> {fields}: where
        self.may = {}           # option -> where
        self.at_exec = []       # states of self.watch when just is executed
        self.late = {}
        self.unknown = None     # something that is added, but not known
        self.user = False       # the arguments of the user were added

    def inline(self, eng, f, e, g, st, depth):
        return g.key != self.f.key and (g.file == self.f.file or any(
            "vector<std::" in t and "const" not in t.split("<")[0] and
            "string" in t for t in (Cx.fx_t(g, p) for p in g.params)))

    def join_ts(self, a, b):
        return None

    def field(self, p):
        """The field of a parameter a path stands for."""
        if not p:
            return None
        p = p[:-2] if p.endswith(".*") else p
        h, _, t = p.partition(".")
        return t.replace(".*", "").rsplit(".", 1)[-1] if h in self.params \
            and t else None

    def fields(self, eng, f, i, st, seen=None):
        """Fields of the parameters a value is made of."""
        seen = set() if seen is None else seen
        e = f.el.get(i)
        if e is None or (f.key, i) in seen or e["op"] == "call" and \
                last(e) in ("MultiRepoSetup", "ReadConfiguration"):
            return set()
        seen.add((f.key, i))
        x = self.field(eng.path(f, i, st))
        if x:
            return {x}
        out = set()
        if e["op"] == "ref" and e.get("k") in ("l", "b", "s"):
            for j in self.cx.inits(f).get(e["v"], ()):
                out |= self.fields(eng, f, j, st, seen)
            return out
        for j in list(e.get("a", ())) + [e.get("o"), e.get("b")]:
            if isinstance(j, int):
                out |= self.fields(eng, f, j, st, seen)
        return out

    def pushed(self, eng, f, e, st):
        """Called for every element that is added to the command line."""
        i = e["a"][0]
        v = eng.val(f, i, st)
        t = text(f, i)
        if t is None and isinstance(v.c, str):
            t = v.c
        prev = next((x[1] for x in st.ts if x[0] == "last"), None)
        ts = frozenset(x for x in st.ts if x[0] != "last")
        if t is not None and t.startswith("-"):
            self.may.setdefault(t, (f, e))
            if ("user", ) in ts:
                self.late[t] = (f, e)
            if self.watch is None:
                ts |= {("last", t)}
            elif t == self.watch:
                ts |= {("opt", t)}
            return st.with_ts(ts)
        if self.watch is None:
            fs = frozenset(self.fields(eng, f, i, st))
            if prev is None and not isinstance(v.c, str) and not fs & {
                    "additional_just_args", "just_path", "subcmd_name"}:
                self.unknown = (f, e)
            if prev is not None:
                self.pairs.setdefault(prev, {}).setdefault(fs, (f, e))
            if "additional_just_args" in fs and \
                    "subcmd_name" not in fs:
                ts |= {("user", )}
                self.user = True
        return st.with_ts(ts)

    def call(self, eng, f, e, st, depth):
        n, k = fn(e), last(e)
        a = e.get("a", ())
        if k in PUSH and a and e.get("o") is not None and \
                "basic_string" in e["fn"] and "vector" in n:
            return [(E.UNK, self.pushed(eng, f, e, st))]
        if k == "insert" and len(a) == 3 and e.get("o") is not None and \
                "basic_string" in e["fn"] and "vector" in n and \
                "additional_just_args" in self.fields(eng, f, a[1], st):
            self.user = True
            return [(E.UNK, st.with_ts(st.ts | {("user", )}))]
        if k.startswith("exec") and "::" not in n:
            if self.watch:
                self.at_exec.append((f, e, ("opt", self.watch) in st.ts))
            return [(E.const(-1), st)]
        if e.get("o") is not None:
            t = f.t(f.el.get(e["o"], {}))
            if "JustSubCmdFlags" in t and "map" in t:
                if k == "contains":
                    return [(E.TRUE, st)]
                if k in ("at", "operator[]"):
                    return [(E.AV(E.POS, None, None, "FLAGS"), st)]
                if k == "find":
                    return [(E.AV(E.POS, None, ("it", )), st)]
                if k in ("end", "cend"):
                    return [(E.AV(E.POS, None, ("end", )), st)]
        if k in ("operator==", "operator!=") and "iterator" in n.lower():
            vs = [eng.val(f, x, st) for x in
                  list(a) + ([e["o"]] if e.get("o") is not None else [])]
            if {v.tag[0] for v in vs if v.tag} == {"it", "end"}:
                return [(E.TRUE if k[-2] == "!" else E.FALSE, st)]
            return [(E.UNK, st)]
        if k in ("operator==", "operator!="):
            xs = list(a) + ([e["o"]] if e.get("o") is not None else [])
            if any(self.field(eng.path(f, x, st)) for x in xs):
                return [(E.TRUE if k[-2] == "!" else E.FALSE, st)]
        if k == "empty" and e.get("o") is not None:
            p = eng.path(f, e["o"], st)
            v = st.env.get(p) if p else None
            if self.field(p) and v is not None:
                if not v.s & E.ZERO:
                    return [(E.FALSE, st)]
                if v.s == E.ZERO:
                    return [(E.TRUE, st)]
        if k == "CreateDirectoryExclusive" or k == "IsValidFileName":
            return [(E.TRUE, st)]
        if k in ("SharedLock", "MultiRepoSetup"):
            return [(E.AV(E.POS), st)]
        return None


class Eng(E.Engine):
    """Reads the capabilities of the subcommand wherever they are kept."""

    def val(self, f, eid, st, *a, **k):
        e = f.el.get(eid)
        if e is not None and e["op"] == "mem" and not e.get("isf") and \
                e["m"] in self.p.flags and \
                "JustSubCmdFlags" in f.t(f.el.get(e["b"], {})):
            return E.TRUE if self.p.flags[e["m"]] else E.FALSE
        return super().val(f, eid, st, *a, **k)


def env_of(cx, f, flags, given, default=None):
    env = {}
    for p in f.params:
        t = Cx.fx_t(f, p).replace("const ", "").rstrip(" &")
        for k, r in cx.fx.records.items():
            if k != t:
                continue
            for x in r["fields"]:
                n, ty = x["n"], x["ty"]
                g = given.get(n, default)
                if g is None:
                    continue
                path = p[0] + "." + n
                if ty == "bool":
                    env[path] = E.TRUE if g else E.FALSE
                else:
                    env[path] = E.AV(E.POS if g else E.ZERO)
                    if g and "LogLevel" in ty:
                        env[path + ".*"] = E.const(4711)
    for n, v in flags.items():
        env["FLAGS." + n] = E.TRUE if v else E.FALSE
    return env


def go(cx, f, flags, given, watch=None, default=None):
    pol = Launch(cx, f, flags, watch)
    eng = Eng(cx.fx, pol)
    g = {"subcmd_name": True, "just_path": True, **given}
    eng.run(f, E.State(env_of(cx, f, flags, g, default), frozenset()))
    return pol


# about what just-mr does itself
OWN = {"jobs", "main"}
AIDS = {"remote_execution_address": True, "directory": True}


def main_fields(cx, o, fs, mr, ju):
    """The fields of fs that option o stands for."""
    return {x for x in fs if o in mr.get(x, ()) or o in ju.get(x, ())}


def norm(o):
    return o.lstrip("-").replace("-", "_")


def run(fx, rep):
    cx = Cx(fx, rep)
    for r in ("an option handed on is one that just declares, and its value "
              "comes from the field that this option sets",
              "an option is handed on to exactly the subcommands that "
              "declare it",
              "an option that was given is handed on on every path, one that "
              "was not given on none",
              "options come before the arguments given by the user"):
        rep.rule(r)
    f = lib.one(fx, "CallJust")
    cx.known = {x["n"] for p in f.params for k, r in fx.records.items()
                if k == Cx.fx_t(f, p).replace("const ", "").rstrip(" &")
                for x in r["fields"]}
    types = {x["n"]: x["ty"] for p in f.params for k, r in fx.records.items()
             if k == Cx.fx_t(f, p).replace("const ", "").rstrip(" &")
             for x in r["fields"]}
    table = cx.table()
    sub = cx.subcommands()
    if len(table) < 5 or len(sub) < 5:
        raise F.AnalysisError("anchor vanished: subcommands")
    names = {n for r in table.values() for n in r}
    on = {n: True for n in names}
    mine = []
    for g in fx.funcs():
        if g.kind != "lambda" and g.params and "CLI::App" in Cx.fx_t(
                g, g.params[0]) and g.file.startswith(
                    "src/other_tools/just_mr/"):
            mine += cx.options(g)
    theirs = [o for s in sub.values() for o in s]
    mr, ju = {}, {}
    for d, opts in ((mr, mine), (ju, theirs)):
        for n, fs, _, _ in opts:
            for x in fs:
                d.setdefault(x, set()).update(n)
    declared = {n for o in theirs for n in o[0]}
    flags = {n for o in theirs for n in o[0] if "flag" in last(o[3])}
    rep.count("options of just", len(declared), 50)
    rep.count("subcommands", len(sub), 8)
    rep.count("subcommands known to just-mr", len(table), 5)
    # the same field is set by the same option
    for x in sorted(set(mr) & set(ju)):
        a, b = mr[x], ju[x]
        rep.ob(f"option for {x}", a & b,
               f"{x} is set by {sorted(a)} in just-mr, but by {sorted(b)} in "
               "just", f"{x}: {sorted(a)}")
    full = go(cx, f, on, {}, None, True)
    some = go(cx, f, on, {}, None, False)
    may = dict(full.may)
    may.update(some.may)
    pairs = {}
    for p in (full, some):
        for o, m in p.pairs.items():
            for fs, w in m.items():
                pairs.setdefault(o, {}).setdefault(fs, w)
    rep.count("options handed on", len(may), 10)
    for p in (full, some):
        for o, (g, e) in p.late.items():
            rep.ob(f"order of {o}", False, f"{g.loc(e)}: {o} comes after the "
                   "arguments of the user")
    rep.ob("arguments of the user are handed on", full.user and some.user,
           f"{f.loc()}: the arguments given by the user are not handed on")
    # options that are added from a table, or a loop over one
    cx.opaque = full.unknown or some.unknown
    for x in sorted((set(mr) & set(ju) & cx.known) - OWN):
        rep.ob(f"{x} is handed on", cx.opaque or mr[x] & set(may),
               f"{f.loc()}: {x} ({sorted(mr[x])}) is never handed on",
               f"{x}: {sorted(mr[x] & set(may))}")
    # one option sets one field
    for who, opts in [("just-mr", mine)] + [
            ("just " + k, v) for k, v in sorted(sub.items())]:
        by = {}
        for n, fs, g, e in opts:
            for x in fs:
                by.setdefault(x, {}).setdefault(frozenset(n), (g, e))
        for x, m in sorted(by.items()):
            g, e = max(m.values(), key=lambda w: w[0].loc(w[1]))
            rep.ob(f"{who}: option that sets {x}", len(m) == 1,
                   f"{g.loc(e)}: {x} is set by {[sorted(n) for n in m]} in "
                   f"{who}")
    # capabilities that an option depends on
    gate = {o: set() for o in may}
    for n in sorted(names):
        m = go(cx, f, {**on, n: False}, {}, "?", True).may
        for o in may:
            if o not in m:
                gate[o].add(n)
    used = {}
    for o in sorted(may):
        g, e = may[o]
        where = g.loc(e)
        rep.ob(f"{o} is an option of just", o in declared,
               f"{where}: just has no option {o}", f"{where}: {o}")
        mains = set()
        for fs, (h, x) in pairs.get(o, {}).items():
            if o in flags:
                break
            m = main_fields(cx, o, fs, mr, ju)
            mains |= m
            for y in sorted(fs):
                for d, who in ((mr, "just-mr"), (ju, "just")):
                    ok = o in d[y] if y in d else True
                    if not ok and norm(y) in (norm(z) for n, _, _, _ in (
                            theirs if d is ju else mine) if o in n
                            for z in n):
                        ok = True       # has the option's name
                    rep.ob(f"{o} takes {y}", ok,
                           f"{h.loc(x)}: {o} gets the value of {y}, which "
                           f"is {sorted(d.get(y, ()))} in {who}")
            if not m:
                for y in fs:
                    if y not in AIDS and y not in ("project_id", ):
                        used.setdefault(y, set()).add(o)
                        if y not in mr and y not in ju:
                            mains.add(y)
        if o not in flags:
            rep.ob(f"{o} has a value", o in pairs,
                   f"{where}: {o} is handed on without a value")
        else:
            mains = {y for y in cx.known if o in mr.get(y, ())}
            if len(o) > 2 and o == "--log-append":
                mains = set()       # always appended to shared files
        if len(mains) == 1:
            presence(cx, rep, f, on, o, next(iter(mains)), types, where)
        # capabilities
        user = any(o in n for n in mr.values())
        for s, row in sorted(table.items()):
            reg = any(o in x[0] for x in sub.get(s, ()))
            emitted = all(row[n] for n in gate[o])
            if emitted:
                rep.ob(f"just {s} knows {o}", reg,
                       f"{where}: {o} is handed on to just {s}, which has no "
                       "such option", f"just {s}: {o}")
            elif user and not cx.opaque:
                rep.ob(f"just {s} gets {o}", not reg,
                       f"{where}: {o} is not handed on to just {s}, although "
                       "it has this option", f"just {s}: no {o}")
    for y, os in sorted(used.items()):
        rep.ob(f"one option for {y}", len(os) == 1,
               f"{f.loc()}: {y} is the value of {sorted(os)}")


def presence(cx, rep, f, on, o, x, types, where):
    """Handed on if and only if it was given."""
    ty = types.get(x, "")
    must = ty == "bool" or "optional" in ty and x not in ("local_launcher", )
    for d in (True, False):
        given = {x: True} if d else {x: True, **AIDS}
        p = go(cx, f, on, given, o, d)
        hits = [h for h in p.at_exec]
        ok = cx.opaque or hits and all(h[2] for h in hits) if must else \
            o in p.may or d is False
        rep.ob(f"{o} is handed on if given", ok,
               f"{where}: {o} is not handed on on some path, although "
               f"{x} was given", f"{where}: {o}")
    for d in (True, False):
        p = go(cx, f, on, {x: False}, o, d)
        if must:
            rep.ob(f"{o} is handed on only if given",
                   not any(h[2] for h in p.at_exec),
                   f"{where}: {o} is handed on although {x} was not given")
