"""Every node of an asynchronous map is answered exactly once.

A function that is given a setter owes one answer: it calls the setter,
reports a fatal error to its logger, or hands both on to a continuation (the
consumer of further values) or another function. The answers given are
counted along all control-flow paths; continuations are functions that owe an
answer themselves. The protocol of the nodes is checked path by path too."""
import re

import engine as E
import facts as F

FN = "std::function<void ("
SETTER, LOGGER, SLOGGER, SUB = "setter", "logger", "slogger", "subcaller"
QUEUEING = ("TaskSystem::QueueTask",)
CONSUME = "AsyncMapConsumer::ConsumeAfterKeysReady"


def core(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.endswith(("&", "*")):
            t = t[:-1].rstrip()
        elif t.startswith(("std::shared_ptr<", "gsl::not_null<",
                           "std::optional<")) and t.endswith(">"):
            t = t[t.index("<") + 1:-1].strip()
        elif t.endswith(" const"):
            t = t[:-6]
        else:
            return t


def kind(t):
    t = core(t)
    if not t.startswith(FN):
        return None
    if t == FN + "const std::basic_string<char> &, bool)>":
        return LOGGER
    if t == FN + "const std::basic_string<char> &)>":
        return SLOGGER
    if t.startswith(FN + "const std::vector<") and "std::function<void (" in \
            t[len(FN):]:
        return SUB
    if t.endswith(" &&)>"):
        return SETTER
    return None


NULLABLE = re.compile(r"^(std::optional<|ExpressionPtr$|std::shared_ptr<"
                      r"(?!std::function))")


def core0(t):
    return t.replace("const ", "").rstrip("& ")


def ptype(f, p):
    return p[2] if isinstance(p[2], str) else f.types[p[2]] if p[2] >= 0 \
        else ""


def lam_tag(v):
    return v.tag[1] if v.tag and v.tag[0] in ("lam", "fn") else None


class Count(E.Policy):
    """Events on a path: 'set', 'fatal', 'del'; 'slog:i' in summaries."""
    max_depth = 4
    drop_dead = True

    def __init__(self, ck):
        self.ck = ck
        self.bad = []
        self.conts = []
        self.naked = {}

    def elem(self, eng, f, e, st):
        if e["op"] == "ret" and not st.ts & {"set", "fatal", "del"}:
            self.naked.setdefault(f.key, f.loc(e))
        return None

    def inline(self, eng, f, e, g, st, depth):
        return g.kind == "lambda"

    # -- helpers
    def event(self, f, e, st, what):
        ts = st.ts
        if what in ("set", "del"):
            before = ts & {"set", "del", "fatal"}
            if before:
                self.bad.append((f, e, what, sorted(before)))
        elif ts & {"set", "del"}:
            self.bad.append((f, e, what, sorted(ts & {"set", "del"})))
        return st.with_ts(ts | {what})

    def run_closure(self, eng, k, st, fatal=None):
        """States after calling a local closure (a wrapped logger)."""
        g = self.ck.fx.func(k)
        env = {x: y for x, y in st.env.items() if isinstance(x, str)}
        if fatal is not None and len(g.params) >= 2:
            env[g.params[1][0]] = fatal
        sub = E.Engine(self.ck.fx, self)
        outs = sub.run(g, E.State(env, st.ts))
        return {o.st.ts for o in outs if o.how == "ret"} or {st.ts}

    def report(self, eng, f, e, o, st, fatal):
        """A call of a logger."""
        v = eng.val(f, o, st) if not isinstance(o, E.AV) else o
        k = lam_tag(v)
        if k and self.ck.fx.has(k):
            return [st.with_ts(t) for t in self.run_closure(
                eng, k, st, fatal)]
        r = []
        if fatal.s & E.POS or fatal.s == E.TOP:
            r.append(self.event(f, e, st, "fatal"))
        if fatal.s & E.ZERO:
            r.append(st)
        return r

    def call(self, eng, f, e, st, depth):
        fn = e.get("fn", "")
        pn = F.plain(fn)
        if e["op"] == "call" and e.get("opk") in ("==", "!=") and \
                e.get("o") is None and len(e.get("a", ())) == 2:
            ts = [f.t(eng.src(f, a) or {}) for a in e["a"]]
            vs = [eng.val(f, a, st) for a in e["a"]]
            for i in (0, 1):
                if "nullopt_t" in ts[i] or "nullptr_t" in ts[i]:
                    return [(eng.compare(e["opk"], E.V0, vs[1 - i]), st)]
        if pn == "std::invoke" and e.get("a"):
            k = kind(f.t(eng.src(f, e["a"][0]) or {}))
            if k is not None:
                e = dict(e)
                e["o"], e["a"] = e["a"][0], e["a"][1:]
                e["fn"] = fn = "std::function<>::operator()"
                pn = "std::function::operator()"
        if pn.rsplit("::", 1)[-1] in ("operator->", "operator*") and \
                e.get("o") is not None and eng.val(
                    f, e["o"], st).s == E.ZERO and \
                E.is_engaged_type(f.t(f.el.get(e["o"], {})).replace(
                    "const ", "")):
            return []       # no such value; not followed
        if pn.startswith("ExpressionPtr::"):
            n = pn.rsplit("::", 1)[-1]
            if e["op"] == "ctor" and len(e.get("a", ())) == 1:
                ae = eng.src(f, e["a"][0])
                if ae is not None and ("nullptr" in f.t(ae) or
                                       ae["op"] == "null"):
                    return [(E.V0, st)]
                if "ExpressionPtr" in (f.t(ae) if ae else ""):
                    return [(E.AV(eng.val(f, e["a"][0], st).s), st)]
                return [(E.VP, st)]
            if n == "operator=" and e.get("a") and e["op"] == "call":
                p = eng.path(f, e["o"], st)
                v = eng.val(f, e["a"][0], st)
                if p is not None:
                    st = eng.assign(f, p, E.AV(v.s), st)
                return [(E.AV(v.s), st)]
            if n in ("operator bool",):
                v = eng.val(f, e["o"], st)
                return [(eng.truth(E.AV(v.s & ~E.NEG)), st)]
            if n in ("operator->", "operator*"):
                return [] if eng.val(f, e["o"], st).s == E.ZERO else [
                    (E.VP, st)]
        if e["op"] == "call" and pn == "Expression::FromJson":
            return [(E.VP, st)]     # total on what was parsed
        if e["op"] == "ctor" and len(e.get("a", ())) == 2 and f.t(
                e).replace("const ", "").startswith("std::pair<bool, "):
            return [(E.AV(E.TOP, None, (
                "pair", eng.val(f, e["a"][0], st).s)), st)]
        if pn == "std::make_shared" and len(e.get("a", ())) == 1:
            v = eng.val(f, e["a"][0], st)
            if lam_tag(v):
                return [(E.AV(E.POS, None, v.tag), st)]
        if e["op"] == "ctor" and len(e.get("a", ())) == 1 and kind(
                f.t(e)):
            v = eng.val(f, e["a"][0], st)
            if lam_tag(v):
                return [(E.AV(E.POS, None, v.tag), st)]
        if e["op"] == "call" and pn == "std::function::operator()" or (
                fn.startswith("std::function<") and
                fn.endswith("operator()")):
            o = e.get("o")
            t = f.t(f.el.get(o, {}))
            k = kind(t)
            if k == SETTER:
                return [(E.UNK, self.event(f, e, st, "set"))]
            if k == LOGGER:
                fatal = eng.val(f, e["a"][1], st)
                return [(E.UNK, s) for s in self.report(
                    eng, f, e, o, st, fatal)]
            if k == SLOGGER:
                v = eng.val(f, o, st)
                if lam_tag(v):
                    return None if depth < 3 else [(E.UNK, st)]
                if v.tag and v.tag[0] == "par":
                    return [(E.UNK, st.with_ts(st.ts | {
                        f"slog:{v.tag[1]}"}))]
                return [(E.UNK, st)]
            if k == SUB:
                return [(E.UNK, self.handed(eng, f, e, st))]
            for a in e.get("a", ()):
                # functions that get a logger keep to the same rule
                v = eng.val(f, a, st)
                if v.tag and v.tag[0] == "par" and kind(f.t(
                        eng.src(f, a) or {})) == LOGGER and (
                            f.t(e) == "bool" or E.is_engaged_type(f.t(e))):
                    return [(E.V0, st.with_ts(st.ts | {
                        f"log:{v.tag[1]}"})), (E.VP, st)]
        if pn.endswith(CONSUME) or pn in QUEUEING:
            return [(E.UNK, self.handed(eng, f, e, st))]
        g = self.ck.fx.func(e["fk"]) if e.get("fk") and self.ck.fx.has(
            e["fk"]) else None
        # anything else that gets the setter
        for a in e.get("a", ()):
            ae = eng.src(f, a)
            if ae is None:
                continue
            v = eng.val(f, a, st)
            if kind(f.t(ae)) == SETTER and e["op"] == "call" and \
                    (not fn.startswith(("std::", "gsl::")) or
                     fn.endswith("operator()")) and (
                        g is None or g.kind != "lambda"):
                if g is not None and g.ret == "bool":
                    # tells whether it took over
                    return [(E.TRUE, self.handed(eng, f, e, st)),
                            (E.FALSE, st)]
                return [(E.UNK, self.handed(eng, f, e, st))]
            k = lam_tag(v)
            if k and self.ck.holds_setter(k) and e["op"] == "call" and \
                    not fn.startswith(("std::make_", "std::move",
                                       "std::forward", "gsl::")):
                if fn.startswith("std::") and k not in self.ck.seenalg:
                    self.ck.seenalg.add(k)
                return [(E.UNK, self.handed(eng, f, e, st))]
        if g is not None and g.kind != "lambda" and e["op"] == "call" and \
                self.ck.reports(g) and not self.ck.evaluates(pn):
            return self.summary_call(eng, f, e, g, st)
        if self.ck.evaluates(pn):
            res = [(E.VP, st)]
            for a in e.get("a", ()):
                v = eng.val(f, a, st)
                k = lam_tag(v)
                if k and len(self.ck.fx.func(k).params) == 1 and kind(
                        f.t(eng.src(f, a) or {})) in (SLOGGER, None):
                    g2 = self.ck.fx.func(k)
                    if "basic_string" in ptype(g2, g2.params[0]):
                        res += [(E.V0, st.with_ts(t))
                                for t in self.run_closure(eng, k, st)]
                elif v.tag and v.tag[0] == "par" and kind(f.t(eng.src(
                        f, a) or {})) == SLOGGER:
                    res.append((E.V0, st.with_ts(
                        st.ts | {f"slog:{v.tag[1]}"})))
            return res
        return None

    def handed(self, eng, f, e, st):
        """Both setter and logger are handed on."""
        for a in e.get("a", ()):
            k = lam_tag(eng.val(f, a, st))
            if k:
                self.conts.append((f, e, k))
        return self.event(f, e, st, "del")

    def signs(self, eng, f, e, g, st):
        """What is known of the nullable arguments of a call."""
        r = []
        for j, a in enumerate(e.get("a", ())):
            if j >= len(g.params) or kind(ptype(g, g.params[j])) or \
                    not NULLABLE.search(
                    core0(ptype(g, g.params[j]))):
                continue
            v = eng.val(f, a, st)
            p = eng.path(f, a, st)
            sg = v.s
            if p is not None and "Expression::k" in p:
                sg = E.POS
            if sg == E.TOP and "ExpressionPtr" in ptype(g, g.params[j]):
                sg = E.POS      # expressions are not null unless tested
            if sg != E.TOP:
                r.append((j, sg))
        return tuple(r)

    def summary_call(self, eng, f, e, g, st):
        res = []
        seen = set()
        for sign, evs in self.ck.summary(g, self.signs(eng, f, e, g, st)):
            sts = [st]
            for ev in sorted(evs):
                if ev.startswith("slog:") or ev.startswith("log:"):
                    j = int(ev.split(":")[1])
                    if j >= len(e.get("a", ())):
                        continue
                    v = eng.val(f, e["a"][j], st)
                    k = lam_tag(v)
                    nxt = []
                    for s in sts:
                        if k and self.ck.fx.has(k):
                            nxt += [s.with_ts(t) for t in self.run_closure(
                                eng, k, s, E.TRUE)]
                        elif ev.startswith("log:"):
                            if v.tag and v.tag[0] == "par":
                                nxt.append(s.with_ts(
                                    s.ts | {f"log:{v.tag[1]}"}))
                            else:
                                nxt.append(self.event(f, e, s, "fatal"))
                        elif v.tag and v.tag[0] == "par":
                            nxt.append(s.with_ts(
                                s.ts | {f"slog:{v.tag[1]}"}))
                        else:
                            nxt.append(s)
                    sts = nxt
                elif ev == "fatal":
                    sts = [self.event(f, e, s, "fatal") for s in sts]
            v = E.AV(E.TOP, None, ("pair", sign)) if \
                g.ret.startswith("std::pair<bool, ") else E.AV(sign)
            for s in sts:
                if (sign, s.ts) not in seen:
                    seen.add((sign, s.ts))
                    res.append((v, s))
        return res or None


class Summary(Count):
    """Events of a function that only has a logger."""

    def report(self, eng, f, e, o, st, fatal):
        v = eng.val(f, o, st)
        if v.tag and v.tag[0] == "par":
            r = []
            if fatal.s & E.POS:
                r.append(st.with_ts(st.ts | {f"log:{v.tag[1]}"}))
            if fatal.s & E.ZERO:
                r.append(st)
            return r
        return super().report(eng, f, e, o, st, fatal)


class Checker:
    def __init__(self, fx):
        self.fx = fx
        self.sums = {}
        self.busy = set()
        self.seenalg = set()
        self.nsum = 0
        self._holds = {}
        self.caps = {}
        for f in fx.funcs():
            for e in f.elems():
                if e["op"] == "lambda" and e.get("fk"):
                    self.caps[e["fk"]] = (f, e)

    def holds_setter(self, k):
        r = self._holds.get(k)
        if r is None:
            r = False
            fe = self.caps.get(k)
            if fe:
                f, e = fe
                for c in e.get("caps", ()):
                    x = f.el.get(c.get("i"))
                    if x is not None and kind(f.t(x)) == SETTER:
                        r = True
            self._holds[k] = r
        return r

    def evaluates(self, pn):
        return pn in ("ExpressionPtr::Evaluate",
                      "BuildMaps::Base::ExpressionFunction::Evaluate",
                      "Evaluator::EvaluateExpression")

    def reports(self, g):
        """Functions with a logger but no setter, or methods of a class that
        keeps a logger."""
        ks = {kind(ptype(g, p)) for p in g.params}
        if SETTER in ks:
            return False
        if ks & {LOGGER, SLOGGER}:
            return True
        return any(x["op"] == "call" and x.get("fn", "").endswith(
            "operator()") and kind(g.t(g.el.get(x.get("o"), {}))) == LOGGER
            for x in g.elems())

    def summary(self, g, signs=()):
        r = self.sums.get((g.key, signs))
        if r is not None:
            return r
        if g.key in self.busy or not g.blocks:
            return {(E.TOP, frozenset())}
        self.busy.add(g.key)
        self.nsum += 1
        env = {}
        for j, p in enumerate(g.params):
            if kind(ptype(g, p)) in (LOGGER, SLOGGER):
                env[p[0]] = E.AV(E.POS, None, ("par", j))
        for j, sg in signs:
            env[g.params[j][0]] = E.AV(sg)
        outs = E.Engine(self.fx, Summary(self)).run(
            g, E.State(env, frozenset()))
        r = set()
        for o in outs:
            if o.how == "ret":
                sg = o.val.s
                if o.val.tag and o.val.tag[0] == "pair":
                    sg = o.val.tag[1]
                for s in (E.ZERO, E.POS):
                    if sg & s:
                        r.add((s, o.st.ts))
        self.busy.discard(g.key)
        self.sums[g.key, signs] = r
        return r


def answers_rule(fx, rep):
    ck = Checker(fx)
    todo, done = [], set()
    for f in fx.funcs():
        if any(kind(ptype(f, p)) == SETTER for p in f.params) and \
                f.blocks and not f.file.startswith("test/"):
            todo.append((f.key, None))
    n = nc = 0
    loggers = []
    while todo:
        k, via = todo.pop()
        if k in done:
            continue
        done.add(k)
        f = fx.func(k)
        if f is None:
            continue
        pol = Count(ck)
        outs = E.Engine(fx, pol).run(f, E.State({}, frozenset()))
        n += 1
        if f.kind == "lambda" and not any(True for _ in f.elems()):
            continue            # a stub of the bootstrap build
        name = f.file + ":" + (F.plain(f.short()) if f.kind != "lambda"
                               else "closure")
        for o in outs:
            if o.how != "ret":
                continue
            ok = bool(o.st.ts & {"set", "fatal", "del"})
            if f.ret == "bool" and o.val.s == E.ZERO:
                ok = not ok     # left to the caller
            rep.ob(f"answer:{name}", ok,
                   f"{pol.naked.get(k) or f.file + ':' + str(f.line)}: "
                   f"{F.plain(f.short())} can end without setting a value, reporting a fatal error, or handing "
                   "both on",
                   f"{f.file}:{f.line} {F.plain(f.short())}: answered on "
                   "every path")
        for g, e, what, before in pol.bad:
            w = {"set": "a value is set", "del": "the setter is handed on",
                 "fatal": "a fatal error is reported"}
            b = {"set": "a value was set", "del": "the setter was handed on",
                 "fatal": "a fatal error was reported"}
            rep.ob(f"twice:{name}", False,
                   f"{g.loc(e)}: {w[what]} after "
                   f"{' and '.join(b[x] for x in before)}")
        rep.ob(f"once:{name}", True)
        for g, e, c in pol.conts:
            h = fx.func(c)
            if h is None:
                continue
            if ck.holds_setter(c) or any(kind(ptype(h, p)) == SETTER
                                         for p in h.params):
                nc += 1
                todo.append((c, f))
            elif len(h.params) == 2:
                loggers.append((g, e, c))
            else:
                todo.append((c, f))
    m = 0
    for g, e, c in loggers:
        h = fx.func(c)
        if "basic_string" not in ptype(h, h.params[0]):
            continue
        pol = Count(ck)
        for fatal in (E.TRUE, E.FALSE):
            outs = E.Engine(fx, pol).run(h, E.State(
                {h.params[1][0]: fatal}, frozenset()))
            for o in outs:
                got = bool(o.st.ts & {"fatal", "set", "del"})
                rep.ob(f"logger:{h.file}:{'fatal' if fatal.c else 'warn'}",
                       got == bool(fatal.c),
                       f"{h.file}:{h.line}: the logger given with the "
                       "continuation " + (
                           "can drop a fatal error, so that the node is "
                           "never answered" if fatal.c else
                           "turns a message into a failure"),
                       f"{h.file}:{h.line}: fatal forwarded as it is")
        m += 1
    rep.count("functions that owe an answer", n, 60)
    rep.count("continuations followed", nc, 40)
    rep.count("loggers given with continuations", m, 20)
    rep.count("reporting functions summarised", ck.nsum, 30)


def reports_rule(fx, rep):
    """Functions with a logger report exactly when they fail."""
    ck = Checker(fx)
    n = 0
    for f in fx.funcs():
        ks = [kind(ptype(f, p)) for p in f.params]
        if LOGGER not in ks or SETTER in ks or not f.blocks:
            continue
        if not (f.ret == "bool" or E.is_engaged_type(f.ret) or
                f.ret.startswith("std::pair<bool, ")):
            continue
        signs = tuple((j, E.POS) for j, p in enumerate(f.params)
                      if "ExpressionPtr" in ptype(f, p))
        s = ck.summary(f, signs)
        if any("del" in evs for _, evs in s):
            continue        # runs tasks of its own
        n += 1
        name = f.file + ":" + (F.plain(f.short()) if f.kind != "lambda"
                               else "closure")
        for sign, evs in s:
            if sign == E.ZERO:
                rep.ob(f"silent:{name}", bool(evs),
                       f"{f.file}:{f.line}: {F.plain(f.short())} can fail "
                       "without having called its logger with fatal, so "
                       "that its caller waits for an answer",
                       f"{f.file}:{f.line} {F.plain(f.short())}: every "
                       "failure is reported")
            else:
                rep.ob(f"loud:{name}", not evs,
                       f"{f.file}:{f.line}: {F.plain(f.short())} can report "
                       "a fatal error and succeed nonetheless")
    rep.count("functions that report their failures", n, 30)


def run(fx, rep):
    rep.rule("every function that is given a setter calls it, reports a "
             "fatal error, or hands it on, on every path, and not twice")
    rep.rule("the logger given with a continuation forwards fatal errors")
    rep.rule("a function that is given a logger calls it with fatal if and "
             "only if it fails")
    answers_rule(fx, rep)
    reports_rule(fx, rep)
