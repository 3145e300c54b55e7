"""Guarded values: what a function does with a value from outside that does
not satisfy a condition.

The value a source yields is marked, and the marked value is assumed to
violate the condition in one particular way (a scenario): a path is absolute
or, once normalised, starts with '..'; a file name contains a slash or a NUL
or is one of the special names. The predicates of std::filesystem::path and
std::string on the marked value get their results from the scenario; all other
conditions are unknown. A use of the value (sink) that some path reaches is
reported. Repository functions the marked value is handed to are entered,
closures handed to other calls are entered as well."""
import engine as E
import lib
import prov as PV

PATH_BAD = ("absolute", "upwards")
NAME_BAD = ("slash", "nul", "dot", "dotdot", "empty")

BENIGN_NS = ("fmt::", "Logger::", "std::filesystem::", "nlohmann::",
             "std::basic_string", "std::operator+", "std::optional",
             "std::make_optional", "std::get", "std::holds_alternative",
             "std::char_traits", "std::basic_string_view", "std::operator==",
             "std::operator!=", "std::to_string", "gsl::", "std::as_const",
             "std::move", "std::forward", "std::shared_ptr",
             "std::unique_ptr", "std::__shared_ptr", "std::basic_ostream",
             "std::operator<<", "std::is_", "std::begin", "std::end",
             "std::cbegin", "std::cend", "std::addressof", "Expression",
             "std::__cxx11::basic_string")


def is_log_type(t):
    """std::function<void(std::string const&, bool)>"""
    t = t.replace("const ", "").replace(" &", "&")
    return "function<void (" in t and t.rstrip("> &").endswith("bool)")


class Guard(lib.EvalPolicy):
    """One run: spec is a dict with
    source(f, e): the element yields a value from outside
    sink(f, e, tainted): the element is a use (tainted: indexes of marked
        arguments, 'o' for the object)
    scenario: name of the violation, or None (the value is acceptable)
    assume(f, e): AV of calls, comparisons and members, or None
    """
    drop_dead = True
    max_depth = 5

    def __init__(self, fx, spec, scenario):
        super().__init__()
        self.fx, self.spec, self.scen = fx, spec, scenario
        self.hits = {}
        self.seen_sources = set()
        self.files = spec.get("files", ())

    # -- marks
    @staticmethod
    def mark(v):
        return v.tag[1] if v.tag and v.tag[0] == "T" else None

    @staticmethod
    def tainted(kind):
        return E.AV(E.TOP, None, ("T", kind))

    def member(self, f, e):
        a = self.spec.get("assume")
        if a is not None:
            r = a(f, e)
            if r is not None:
                return r
        if self.spec["source"](f, e):
            self.seen_sources.add((f.key, e["i"]))
            return self.tainted("raw")
        return None

    def inline(self, eng, f, e, g, st, depth):
        if g.q.startswith(("Logger::", "Expression", "FieldReader")):
            return False
        if g.file.startswith("/usr"):
            return False
        ops = list(e.get("a", ()))
        if e.get("o") is not None:
            ops.append(e["o"])
        if any(self.mark(eng.val(f, a, st)) for a in ops):
            return True
        if g.kind == "lambda":
            return True
        return g.file == f.file and not self.spec.get("shallow")

    def elem(self, eng, f, e, st):
        if e["op"] == "list":
            self.check(eng, f, e, st)
        return None

    def check(self, eng, f, e, st):
        if self.scen is not None and "good" in st.ts and \
                "bad" not in st.ts:
            return
        t = set()
        for j, a in enumerate(e.get("a", ())):
            if self.mark(eng.val(f, a, st)):
                t.add(j)
        if e.get("o") is not None and self.mark(eng.val(f, e["o"], st)):
            t.add("o")
        if not self.spec.get("explicit") and e.get("fk") and self.fx.has(
                e["fk"]):
            g = self.fx.func(e["fk"])
            if g.blocks and g.key not in eng.active and len(
                    eng.active) <= self.max_depth and self.inline(
                        eng, f, e, g, st, 0):
                return      # entered
        es = self.spec.get("esink")
        if self.spec["sink"](f, e, t) or es is not None and es(
                eng, f, e, st):
            self.hits.setdefault((f.key, e["i"]), (f, e))

    def compare_strings(self, kind, other):
        """Comparison of a marked string or component with a literal."""
        s = self.scen
        if s is None:
            return E.FALSE if other in ("..", ".", "") else None
        if kind in ("first",):
            if s == "upwards":
                return E.const(other == "..")
            return E.FALSE if other == ".." else None
        if kind == "rawfirst":
            # only the first component as written: decides nothing
            if self.spec.get("normalised") and s == "upwards":
                return E.const(other == "..")
            return E.FALSE if s == "absolute" and other == ".." else None
        special = {"dot": ".", "dotdot": "..", "empty": ""}
        if s in special:
            return E.const(special[s] == other)
        if s in NAME_BAD and other in special.values():
            return E.FALSE
        return None

    def call(self, eng, f, e, st, depth):
        self.check(eng, f, e, st)
        ef = self.spec.get("effect")
        names = ef(f, e) if ef is not None else ()
        if names:
            st = st.with_ts(st.ts | set(names))
        r = self.result(eng, f, e, st, depth)
        return [(E.UNK, st)] if r is None and names else r

    def result(self, eng, f, e, st, depth):
        a = self.spec.get("assume")
        r = a(f, e) if a is not None else None
        if r is None and "assume_st" in self.spec:
            r = self.spec["assume_st"](f, e, st)
        if r is not None:
            return [(r, st)]
        if self.spec["source"](f, e):
            self.seen_sources.add((f.key, e["i"]))
            v = self.tainted("raw")
            if f.t(e).rstrip().endswith("*"):
                v = v.but(s=E.POS)
            return [(v, st.with_ts((st.ts | {"bad"}) - {"good"})),
                    (E.UNK, st.with_ts((st.ts | {"good"}) - {"bad"}))]
        fn = e.get("fn", "")
        n = fn.rsplit("::", 1)[-1]
        args = e.get("a", [])
        o = e.get("o")
        vals = [eng.val(f, x, st) for x in args]
        ov = eng.val(f, o, st) if o is not None else E.UNK
        mo = self.mark(ov)
        s = self.scen
        if n in ("operator==", "operator!=") and e["op"] == "call":
            both = ([ov] if o is not None else []) + vals
            if len(both) == 2:
                for x, y in ((0, 1), (1, 0)):
                    k = self.mark(both[x])
                    c = both[y].c
                    if k and isinstance(c, str):
                        r = self.compare_strings(k, c)
                        if r is not None:
                            if n == "operator!=":
                                r = E.const(not r.c)
                            return [(r, st)]
                        return [(E.UNK, st)]
                    if k and both[y].tag == ("pathend",):
                        # a non-empty path has a first component
                        return [(E.const(n == "operator!="), st)]
        if mo:
            if n in ("is_absolute", "has_root_directory", "has_root_path"):
                return [(E.const(s == "absolute"), st)]
            if n == "is_relative":
                return [(E.const(s != "absolute"), st)]
            if n == "empty":
                return [(E.const(s == "empty"), st)]
            if n == "lexically_normal":
                return [(self.tainted("norm"), st)]
            if n in ("begin", "cbegin") and "path" in f.t(
                    f.el.get(o, {})):
                return [(self.tainted("begin" if mo == "norm" else
                                      "rawbegin"), st)]
            if n in ("end", "cend"):
                return [(E.AV(E.TOP, None, ("pathend",)), st)]
            if n in ("operator*", "operator->") and mo in ("begin",
                                                           "rawbegin"):
                return [(self.tainted("first" if mo == "begin" else
                                      "rawfirst"), st)]
            if n in ("string", "native", "c_str", "data", "generic_string",
                     "u8string", "str", "operator basic_string") and \
                    fn.startswith("std::"):
                return [(self.tainted(mo), st)]
            if n in ("starts_with", "ends_with") and vals and isinstance(
                    vals[0].c, str):
                if n == "starts_with" and mo == "norm" and \
                        vals[0].c in ("..",):
                    return [(E.const(s == "upwards"), st)]
                if n == "starts_with" and vals[0].c == "/":
                    return [(E.const(True) if s == "absolute" else
                             E.const(False) if s in PATH_BAD else E.UNK,
                             st)]
                return [(E.UNK, st)]
            if n in ("find_first_of", "find", "contains", "rfind",
                     "find_last_of") and vals:
                c = vals[0].c
                if isinstance(c, int):
                    c = chr(c) if 0 <= c < 256 else None
                elif isinstance(c, str) and "char[" in f.t(
                        f.el.get(args[0], {})):
                    n3 = vals[2].c if len(vals) == 3 else None
                    c = (c + "\0")[:n3] if isinstance(n3, int) else \
                        c.split("\0")[0]
                if isinstance(c, str):
                    hit = None
                    if s is None:
                        hit = False
                    elif s == "slash":
                        hit = "/" in c
                    elif s == "nul":
                        hit = "\0" in c
                    if hit is not None:
                        if n == "contains":
                            return [(E.const(hit), st)]
                        return [(E.const(0 if hit else (1 << 64) - 1), st)]
                return [(E.UNK, st)]
            if n in ("find_first_not_of",):
                return [(E.UNK, st)]
            if n in ("size", "length"):
                return [(E.const(0) if s == "empty" else E.VP, st)]
        if fn in ("std::ranges::find", "std::find") and len(vals) in (2, 3):
            return None
        if fn in ("std::any_of", "std::all_of", "std::none_of"):
            return None
        if e["op"] == "call" and n == "operator/" and "path" in f.t(e):
            t = [self.mark(v) for v in ([ov] if o is not None else []) + vals]
            if any(t):
                if self.spec.get("join") == "clean":
                    return [(E.UNK, st)]
                return [(self.tainted("raw"), st)]
        if (e["op"] == "ctor" and "basic_string" in f.t(e) or
                n.startswith('operator""')) and args:
            c = vals[0].c
            if isinstance(c, str) and "char[" in f.t(
                    f.el.get(args[0], {})):
                c = (c + "\0")[:vals[1].c] if len(args) >= 2 and \
                    isinstance(vals[1].c, int) else c.split("\0")[0]
            if isinstance(c, str):
                return [(E.const(c), st)]
        if e["op"] == "ctor" and vals and self.mark(vals[0]) and any(
                x in f.t(e) for x in ("filesystem::path", "basic_string",
                                      "string_view")):
            return [(self.tainted(self.mark(vals[0])), st)]
        # closures handed to calls that are not entered
        st = self.closures(eng, f, e, vals, st, depth)
        if mo and not (e.get("fk") and self.fx.has(e["fk"]) and self.inline(
                eng, f, e, self.fx.func(e["fk"]), st, depth)):
            t = f.t(e).replace("const ", "").rstrip("& ")
            if n in ("has_value", "operator bool"):
                return [(E.TRUE, st)]
            if t not in ("bool", "void", "int", "unsigned long") and \
                    not n.startswith(("operator=", "operator!", "operator<",
                                      "operator>", "operator+")):
                return [(self.tainted(mo if n in (
                    "operator*", "operator->", "value", "get") else "raw"),
                    st)]
        return None

    def closures(self, eng, f, e, vals, st, depth):
        fk = e.get("fk")
        if e["op"] != "call" or depth >= self.max_depth:
            return st
        if fk and self.fx.has(fk) and self.inline(
                eng, f, e, self.fx.func(fk), st, depth):
            return st
        for j, v in enumerate(vals):
            if v.tag and v.tag[0] == "lam" and self.fx.has(v.tag[1]):
                g = self.fx.func(v.tag[1])
                if g.key in eng.active or not g.blocks:
                    continue
                fake = dict(e)
                eng.enter(f, fake, g, [], None, st, depth)
        return st


class GEngine(E.Engine):

    def enter(self, f, e, g, args, obj, st, depth):
        # what is passed by reference is read through the caller's place
        for a in list(args) + ([obj] if obj is not None else []):
            v = self.val(f, a, st)
            if Guard.mark(v):
                ap = self.path(f, a, st)
                if ap is not None and not st.get(ap).known():
                    st = st.set(ap, v.but(al=None))
        return super().enter(f, e, g, args, obj, st, depth)

    def val(self, f, eid, st):
        v = super().val(f, eid, st)
        if not v.known() and eid is not None:
            e = f.el.get(eid)
            if e is not None and e["op"] in ("mem", "ref"):
                if e.get("v", "").endswith("::npos"):
                    return E.const((1 << 64) - 1)
                r = self.p.member(f, e)
                if r is not None:
                    return r
        return v


def run(fx, f, spec, scenario, init=None):
    """-> (hits {key: (f, e)}, outcomes, number of source elements)"""
    pol = Guard(fx, spec, scenario)
    eng = GEngine(fx, pol)
    env = {}
    for p in f.params:
        v = (init or {}).get(p[0])
        if v is not None:
            env[p[0]] = v
    env.update({k: v for k, v in (init or {}).items() if k not in env})
    outs = eng.run(f, E.State(env, frozenset(spec.get("ts", ()))))
    return pol, outs, eng
