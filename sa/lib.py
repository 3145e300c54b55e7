"""Helpers shared by the checks."""
import facts as F
import engine as E


def one(fx, q, pred=None):
    """The definition of that name (an anchor), or an error of the analysis."""
    r = [g for g in fx.named(q) if pred is None or pred(g)]
    if not r:
        raise F.AnalysisError("anchor vanished: function " + q)
    return r[0]


class EvalPolicy(E.Policy):
    """Evaluates small functions: enters repository functions, and looks up
    tables with constant initializers."""
    max_depth = 5

    def __init__(self, record=None):
        self.record = record        # (f, e) -> name of an event, or None

    def elem(self, eng, f, e, st):
        if self.record is not None:
            ev = self.record(eng, f, e, st)
            if ev is not None:
                return [st.with_ts(st.ts | {ev})]
        return None

    def inline(self, eng, f, e, g, st, depth):
        return not g.q.startswith("Logger::")

    def call(self, eng, f, e, st, depth):
        if self.record is not None:
            ev = self.record(eng, f, e, st)
            if ev is not None:
                return [(E.UNK, st.with_ts(st.ts | {ev}))]
        fn = e.get("fn", "")
        n = fn.rsplit("::", 1)[-1]
        if fn == "std::filesystem::operator/" and len(e["a"]) == 2:
            l, r = (eng.val(f, a, st).c for a in e["a"])
            if isinstance(r, str):
                return [(E.const((l if isinstance(l, str) else "?") + "/" +
                                 r), st)]
        if n in ("contains", "count", "at", "find", "operator[]") and \
                e.get("o") is not None and len(e.get("a", [])) == 1:
            tab = table_of(eng.fx, f, e["o"])
            if tab is not None:
                k = eng.val(f, e["a"][0], st).c
                if k is not None:
                    if n in ("contains", "count"):
                        return [(E.const(k in tab), st)]
                    if n in ("at", "operator[]") and k in tab and \
                            tab[k] is not None:
                        return [(E.const(tab[k]), st)]
        return None


def table_of(fx, f, eid):
    """Constant table {key: value or None} an element refers to."""
    e = f.el.get(eid)
    while e is not None and e["op"] == "cast":
        e = f.el.get(e["a"][0])
    if e is None or e["op"] != "ref" or e.get("k") not in ("g", "s"):
        return None
    v = fx.vars.get(e["v"])
    return var_table(v) if v else None


def var_table(v):
    el = {e["i"]: e for e in v["e"]}

    def lit(i):
        e = el.get(i)
        while e is not None and e["op"] in ("cast", "ctor") and len(
                e.get("a", [])) >= 1 and not (
                    e["op"] == "ctor" and "pair" in e.get("fn", "")):
            e = el.get(e["a"][0])
        if e is None:
            return None
        return e.get("val")
    for e in v["e"]:
        if e["op"] == "list":
            tab = {}
            for a in e["a"]:
                x = el.get(a)
                if x is None:
                    return None
                if x["op"] == "ctor" and "pair" in x.get("fn", "") and len(
                        x["a"]) == 2:
                    k = lit(x["a"][0])
                    if k is None:
                        return None
                    tab[k] = lit(x["a"][1])
                else:
                    k = lit(a)
                    if k is None:
                        return None
                    tab[k] = None
            return tab
    return None


def evaluate(fx, g, args, record=None, env=None):
    """Runs g with constant arguments (None: unknown) on all paths.
    -> list of outcomes"""
    eng = E.Engine(fx, EvalPolicy(record))
    env = dict(env or {})
    for p, a in zip(g.params, args):
        if a is not None:
            env[p[0]] = a if isinstance(a, E.AV) else E.const(a)
    return eng.run(g, E.State(env, frozenset()))


def results(fx, g, args):
    """The set of constants g returns, or None if it cannot be told.
    Optionals: None (Python) for absent, the content otherwise."""
    out = set()
    for o in evaluate(fx, g, args):
        if o.how != "ret":
            continue
        v = o.val
        if isinstance(v.c, tuple):
            out.add(v.c[1])
        elif v.c is not None:
            out.add(v.c)
        elif v.s == E.ZERO and "optional" in g.ret:
            out.add(None)
        else:
            return None
    return out or None


def enum(fx, name):
    d = fx.enums.get(name)
    if d is None:
        raise F.AnalysisError("anchor vanished: enum " + name)
    return d


def enum_is(fx, name, names):
    d = enum(fx, name)
    got = [c[0] for c in sorted(d["cs"], key=lambda c: c[1])]
    if got[:len(names)] != names:
        raise F.AnalysisError(f"enum {name} is {got}, expected {names}")


def var(fx, name):
    v = fx.vars.get(name)
    if v is None:
        raise F.AnalysisError("anchor vanished: variable " + name)
    return v


def members_in(f, eid, prefix):
    """Names of the members (of a class) an expression reads."""
    out, todo, seen = set(), [eid], set()
    while todo:
        i = todo.pop()
        if i in seen or i is None or i < 0:
            continue
        seen.add(i)
        e = f.el.get(i)
        if e is None:
            continue
        if e["op"] == "mem" and e.get("v", "").startswith(prefix):
            out.add(e["m"])
        todo.extend(E.Engine.children(e))
    return out


def targ(key, enum_name):
    """Value of the first template argument of an enum type in a key."""
    import re
    m = re.search(r"<#V\$@E@" + enum_name + r"(\d+)", key)
    return int(m.group(1)) if m else None
