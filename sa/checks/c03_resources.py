"""Every handle obtained from the C libraries is released exactly once.

Typestate of handles (streams, descriptors, buffers, objects of libgit2,
libarchive and libcurl, temporary files) along all control-flow paths: a
handle obtained is released by the function for its kind, or given to an
owner (a smart pointer whose deleter is checked, or a class whose destructor,
move operations and copy operations are), once, and not used afterwards."""
import re

import engine as E
import facts as F

ZERO, NZ, POS, TOP = E.ZERO, E.NEG | E.POS, E.POS, E.TOP
EXPLANATION = __doc__
ASSUMPTIONS = [
    "exceptions thrown by memory allocation and by string or container "
    "operations are not followed",
    "library functions allocate nothing when they report failure",
]

# functions that return a handle: kind, sign of success
RET = {
    "fopen": ("FILE", POS), "fdopen": ("FILE", POS), "tmpfile": ("FILE", POS),
    "freopen": ("FILE", POS), "popen": ("pipe", POS),
    "opendir": ("DIR", POS),
    "archive_read_new": ("archive_read", POS),
    "archive_write_new": ("archive_write", POS),
    "archive_read_disk_new": ("archive_read", POS),
    "archive_write_disk_new": ("archive_write", POS),
    "archive_entry_new": ("archive_entry", POS),
    "archive_entry_clone": ("archive_entry", POS),
    "curl_easy_init": ("curl", POS), "curl_url": ("curl_url", POS),
    "curl_url_dup": ("curl_url", POS),
    "strdup": ("memory", POS), "strndup": ("memory", POS),
    "malloc": ("memory", POS), "calloc": ("memory", POS),
    "realpath": ("memory", POS),
    "open": ("fd", ZERO | POS), "openat": ("fd", ZERO | POS),
    "creat": ("fd", ZERO | POS), "dup": ("fd", ZERO | POS),
    "mkstemp": ("fd", ZERO | POS), "mkostemp": ("fd", ZERO | POS),
}
# release functions: kind, whether a null handle is allowed
REL = {
    "fclose": ("FILE", False), "pclose": ("pipe", False),
    "closedir": ("DIR", False),
    "archive_read_free": ("archive_read", True),
    "archive_write_free": ("archive_write", True),
    "archive_free": ("archive", True),
    "archive_entry_free": ("archive_entry", True),
    "curl_easy_cleanup": ("curl", True),
    "curl_url_cleanup": ("curl_url", True), "curl_free": ("curl_str", True),
    "free": ("memory", True), "close": ("fd", False),
    "git_buf_dispose": ("git_buf", True), "git_buf_free": ("git_buf", True),
    "git_strarray_dispose": ("git_strarray", True),
    "git_strarray_free": ("git_strarray", True),
}
# functions of libgit2 whose out argument is owned by another object
NOT_OWNED = {"git_config_next", "git_remote_ls", "git_odb_get_backend",
             "git_config_get_string"}
STRUCTS = {"git_buf", "git_strarray"}
RAW = re.compile(r"^(const )?(_IO_FILE|FILE|__dirstream|git_\w+|archive|"
                 r"archive_entry|Curl_URL|CURLU?) \*$")
# library set-up: shutdown function, signs of success and failure
CONTEXT = {"git_libgit2_init": ("git_libgit2_shutdown", ZERO | POS, E.NEG),
           "curl_global_init": ("curl_global_cleanup", ZERO, E.POS)}
CLEANUP = {"rmdir", "unlink", "remove", "std::filesystem::remove"}


def strip(fn):
    return fn[5:] if fn.startswith("std::") and fn.count("::") == 1 else fn


def release_of(fn):
    fn = strip(fn)
    r = REL.get(fn)
    if r is None and fn.startswith("git_") and fn.endswith("_free"):
        return fn[:-5], True
    return r


def same(kind, rel):
    return kind == rel or rel == "archive" and kind.startswith("archive_") \
        and kind != "archive_entry"


def out_arg(f, e):
    """(index, kind, struct?) of the argument that receives a handle."""
    fn = strip(e.get("fn", ""))
    a = e.get("a", ())
    if fn == "curl_url_get" and len(a) >= 3:
        return 2, "curl_str", False
    if not fn.startswith("git_") or fn in NOT_OWNED or \
            release_of(fn) or not a:
        return None
    if f.t(e) != "int":
        return None
    t = f.t(f.el.get(a[0], {})).replace("const ", "")
    m = re.match(r"^(git_\w+) \*\*$", t)
    if m:
        return 0, m.group(1), False
    m = re.match(r"^(git_\w+) \*$", t)
    if m and m.group(1) in STRUCTS:
        ae = f.el.get(a[0], {})
        if ae.get("op") == "un" and ae.get("k") == "&":
            return 0, m.group(1), True
    return None


def smart(t):
    t = t.replace("const ", "")
    m = re.match(r"^std::(unique|shared)_ptr<(\w+)(,|>)", t)
    if m and (RAW.match(m.group(2) + " *") or
              m.group(2) == "void" and m.group(3) == ","):
        return m.group(1), m.group(2), m.group(3) == ","
    return None


class P(E.Policy):
    follow_eh = True
    max_depth = 4
    drop_dead = True

    def __init__(self, ck, root):
        self.ck, self.root = ck, root
        self.bad = {}
        self.moving = False
        self.acq = set()
        self.rels = set()
        self.owners = set()
        self.deleters = set()

    def complain(self, f, e, rid, why):
        self.bad.setdefault((rid[0] if rid else "", why),
                            (f, e))

    def may_throw(self, eng, f, e):
        if e["op"] == "throw":
            return True
        return e["op"] == "call" and e.get("fn", "").startswith(
            "std::filesystem::") and e["fn"].rsplit("::", 1)[-1] in (
                "file_size", "rename", "copy_file", "create_directories",
                "weakly_canonical", "canonical", "absolute", "last_write_time",
                "permissions", "read_symlink", "is_regular_file", "exists")

    def inline(self, eng, f, e, g, st, depth):
        return self.ck.relevant(g)

    # ---- states of handles
    @staticmethod
    def state(st, rid):
        for x in st.ts:
            if x[1] == rid:
                return x[0]
        return None

    @staticmethod
    def put(st, rid, s):
        return st.with_ts(frozenset(
            [x for x in st.ts if x[1] != rid] + ([(s, rid)] if s else [])))

    def rid(self, eng, f, eid, st):
        v = eng.val(f, eid, st)
        e = f.el.get(eid)
        t = f.t(e).replace("const ", "").rstrip("&") if e else ""
        if v.tag and v.tag[0] == "res" and (t.endswith("*") or t in (
                "int", "long") or t.startswith("gsl::not_null<") or e["op"] == "list"):
            return v.tag[1]
        if e is not None and e["op"] == "call" and e.get("fn", "").rsplit(
                "::", 1)[-1] in ("get", "c_str", "data") and \
                e.get("o") is not None:
            v = eng.val(f, e["o"], st)
            return v.tag[1] if v.tag and v.tag[0] == "res" else None
        return None

    def opened(self, f, e, st, rid):
        if self.state(st, rid) == "open":
            self.complain(f, e, rid, "obtained again before it is released")
        self.acq.add((f.key, e["i"]))
        return self.put(st, rid, "open")

    def release(self, f, e, st, rid, kind):
        s = self.state(st, rid)
        self.rels.add((f.key, e["i"]))
        if kind is not None and not same(rid[0], kind):
            self.complain(f, e, rid, "released by " + e.get("fn", "?"))
        if s in ("closed", "managed"):
            self.complain(f, e, rid, "released twice" if s == "closed" else
                          "released although it has an owner")
        return self.put(st, rid, "closed")

    def hand(self, f, e, st, rid):
        s = self.state(st, rid)
        if s in ("closed", "managed"):
            self.complain(f, e, rid, "given to an owner " + (
                "after its release" if s == "closed" else "twice"))
        return self.put(st, rid, "managed")

    def stored(self, f, e, st, rid, cls):
        """The handle is kept in a field of a class."""
        if self.moving or self.state(st, rid) != "open":
            return st
        self.owners.add((cls, rid[0]))
        return self.hand(f, e, st, rid)

    # ---- elements
    def elem(self, eng, f, e, st):
        if e["op"] == "init" and e.get("m") and e.get("a"):
            v = eng.val(f, e["a"][0], st)
            x = f.el.get(e["a"][0])
            if x and x["op"] == "list" and len(x["a"]) == 1:
                v = eng.val(f, x["a"][0], st)
                x = f.el.get(x["a"][0])
            base = st.get("this").al or "this"
            st = st.set(base + "." + e["m"], v)
            if v.tag and v.tag[0] == "res" and x and not f.t(
                    x).startswith("std::"):
                st = self.stored(f, e, st, v.tag[1], f.cls)
            return [st]
        if e["op"] == "asg" and e["k"] == "=":
            t = f.el.get(e["a"][0], {})
            r = self.rid(eng, f, e["a"][1], st)
            if r is not None and t.get("op") == "mem" and t.get("v"):
                return [self.stored(f, e, st, r,
                                    t["v"].rsplit("::", 1)[0])]
            return None
        if e["op"] == "lambda":
            g = self.ck.fx.func(e["fk"]) if self.ck.fx.has(
                e.get("fk")) else None
            if g is not None and self.ck.has_release(g) and \
                    self.ck.finalizer(f, e):
                for c in e.get("caps", ()):
                    if c.get("i") is None:
                        continue
                    r = self.rid(eng, f, c["i"], st)
                    if r is not None and self.state(st, r) == "open":
                        st = self.hand(f, e, st, r)
                return [st]
        return None

    def call(self, eng, f, e, st, depth):
        fn = strip(e.get("fn", ""))
        a = e.get("a", [])
        if e["op"] == "ctor":
            return self.ctor(eng, f, e, st)
        # smart pointers
        o = e.get("o")
        n = fn.rsplit("::", 1)[-1]
        if o is not None and fn.startswith("std::"):
            sm = smart(f.t(f.el.get(o, {})))
            if sm and n == "reset" and a:
                r = self.rid(eng, f, a[0], st)
                if r is not None:
                    st = self.hand(f, e, st, r)
                self.deleter(f, e, a[1:], sm, reset=True)
                p = eng.path(f, o, st)
                if p is not None:
                    st = st.set(p, eng.val(f, a[0], st))
                return [(E.UNK, st)]
            if sm and n == "release":
                v = eng.val(f, o, st)
                if v.tag and v.tag[0] == "res" and \
                        self.state(st, v.tag[1]) == "managed":
                    st = self.put(st, v.tag[1], "open")
                return [(v.but(al=None), st)]
        if fn in RET and (e.get("fk") is None or
                          not self.ck.fx.has(e["fk"])):
            kind, ok = RET[fn]
            rid = (kind, f.key, e["i"])
            base = eng.havoc(f, e, st)
            if fn == "fdopen":
                r = self.rid(eng, f, a[0], st)
                if r is not None:
                    base = self.put(base, r, "managed")
            good = self.opened(f, e, base, rid)
            if fn.startswith("mk"):
                p = eng.path(f, a[0], st)
                if p is None:
                    r = self.rid(eng, f, a[0], st)
                    p = r and str(r)
                good = self.opened(f, e, good, ("temporary file", f.key, p))
            bad = self.put(base, rid, None)
            return [(E.AV(ok, None, ("res", rid)), good),
                    (E.AV(TOP & ~ok if ok != POS else ZERO,
                          -1 if ok != POS else 0), bad)]
        if fn == "mkdtemp":
            base = eng.havoc(f, e, st)
            p = self.named(eng, f, a[0], st)
            good = self.opened(f, e, base, ("temporary file", f.key, p))
            return [(E.VP, good), (E.V0, base)]
        x = out_arg(f, e)
        if x is not None:
            ix, kind, struct = x
            p = self.target(eng, f, a[ix], st)
            if p is None or any(p == x[0] and x[2].endswith("*")
                                for x in f.params):
                return None
            base = eng.havoc(f, e, st)
            if struct:
                rid = (kind, f.key, p)
                if kind == "git_buf":   # reused by the library
                    base = self.put(base, rid, None)
                good = self.opened(f, e, base, rid)
                return [(E.AV(ZERO, 0), good),
                        (E.AV(NZ), self.put(base, rid, None))]
            rid = (kind, f.key, e["i"])
            good = self.opened(f, e, base, rid)
            good = good.set(p, E.AV(POS, None, ("res", rid)))
            bad = self.put(base, rid, None).set(p, E.V0)
            return [(E.AV(ZERO, 0), good), (E.AV(NZ), bad)]
        rel = release_of(fn)
        if rel is not None and a and (e.get("fk") is None or
                                      not self.ck.fx.has(e["fk"])):
            kind, null_ok = rel
            if kind in STRUCTS:
                p = self.target(eng, f, a[0], st)
                self.rels.add((f.key, e["i"]))
                for s, rid in list(st.ts):
                    if rid[0] == kind and rid[2] == p:
                        st = self.put(st, rid, None)
                return [(E.UNK, st)]
            r = self.rid(eng, f, a[0], st)
            v = eng.val(f, a[0], st)
            self.rels.add((f.key, e["i"]))
            if r is None:
                if not null_ok and v.s == (ZERO if kind != "fd" else E.NEG) \
                        and v.known():
                    self.complain(f, e, (kind,), "released although it was "
                                  "not obtained")
                return [(E.AV(TOP), st)]
            st2 = self.release(f, e, st, r, kind)
            if fn in ("fclose", "close", "pclose"):
                return [(E.AV(ZERO, 0), st2), (E.AV(NZ), st2)]
            return [(E.UNK, st2)]
        if fn in ("rename", "link") or fn in CLEANUP:
            done = st
            v = self.named(eng, f, a[0], st) if a else None
            r = self.rid(eng, f, a[0], st) if a else None
            hit = False
            for s, rid in list(st.ts):
                if rid[0] == "temporary file" and (
                        rid[2] == v or r is not None and rid[2] == str(r)):
                    done = self.put(done, rid, None)
                    hit = True
            if hit:
                if fn == "rename":
                    return [(E.AV(ZERO, 0), done), (E.AV(NZ), st)]
                return [(E.UNK, done)]
            return None
        # uses
        for x in list(a) + ([o] if o is not None else []):
            r = self.rid(eng, f, x, st)
            if r is not None and self.state(st, r) == "closed":
                self.complain(f, e, r, "used after its release")
        if fn in ("fileno", "fseek", "fread", "fwrite", "ftell", "rewind",
                  "fprintf", "fgets", "fputs", "fflush") and a:
            v = eng.val(f, a[-1] if fn in ("fread", "fwrite", "fputs",
                                           "fgets") else a[0], st)
            if v.s == ZERO:
                self.complain(f, e, ("FILE",), "used although it was not "
                              "obtained")
        g = self.ck.fx.func(e["fk"]) if e.get("fk") and self.ck.fx.has(
            e["fk"]) else None
        if g is not None and g.kind != "lambda" and not self.ck.relevant(g):
            # might be kept by the callee
            for j, x in enumerate(a):
                r = self.rid(eng, f, x, st)
                if r is not None and j < len(g.params) and \
                        self.ck.keeps(g, j) and self.state(st, r) == "open":
                    st = self.hand(f, e, st, r)
                    return [(E.UNK, st)]
        return None

    def named(self, eng, f, eid, st):
        """The variable whose characters are given."""
        e = f.el.get(self.under(f, eid))
        if e is not None and e["op"] == "call" and e.get("o") is not None \
                and e["fn"].rsplit("::", 1)[-1] in ("data", "c_str",
                                                    "string"):
            return eng.path(f, e["o"], st)
        return eng.path(f, e["i"], st) if e else None

    def target(self, eng, f, eid, st):
        v = eng.val(f, eid, st)
        if v.al is not None:
            return v.al
        e = f.el.get(eid)
        while e is not None and e["op"] == "cast":
            e = f.el.get(e["a"][0])
        if e is not None and e["op"] == "un" and e["k"] == "&":
            return eng.path(f, e["a"][0], st)
        return eng.path(f, eid, st)

    def ctor(self, eng, f, e, st):
        a = e.get("a", [])
        sm = smart(f.t(e))
        if sm:
            if e.get("cm") or not a:
                return None
            r = self.rid(eng, f, a[0], st)
            v = eng.val(f, a[0], st)
            if r is not None:
                st = self.hand(f, e, st, r)
            ae = f.el.get(a[0], {})
            if not (ae.get("op") == "null" or smart(f.t(ae)) or
                    f.t(ae) == "std::nullptr_t"):
                self.deleter(f, e, a[1:], sm)
            return [(E.AV(v.s, v.c, v.tag), st)]
        fk, st0 = e.get("fk"), st
        if fk and self.ck.fx.has(fk):
            g = self.ck.fx.func(fk)
            for x in a:
                r = self.rid(eng, f, x, st)
                if r is None and f.t(f.el.get(x, {})).startswith(
                        ("const std::", "std::")):
                    p = eng.path(f, self.under(f, x), st)
                    for s, rid in list(st.ts):
                        if rid[0] == "temporary file" and rid[2] == p:
                            r = rid
                if r is not None and self.state(st, r) is not None:
                    st = self.hand(f, e, st, r)
                    self.owners.add((g.cls, r[0]))
            if st is not st0:
                return [(E.VP, st)]
        return None

    @staticmethod
    def under(f, eid):
        for _ in range(9):
            e = f.el.get(eid)
            if e is None or e["op"] not in ("cast", "ctor") or \
                    not e.get("a"):
                break
            eid = e["a"][0]
        return eid

    def deleter(self, f, e, args, sm, reset=False):
        how, obj, custom = sm
        if how == "unique" and custom and not args:
            t = f.t(e) if e["op"] == "ctor" else f.t(f.el[e["o"]])
            if "(*)(" not in t and "(lambda" not in t or reset:
                return      # class type: default constructed
        if not args:
            self.complain(f, e, (obj,), "owned by a smart pointer without a "
                          "deleter for it")
            return
        self.deleters.add((f.key, e["i"], args[0], obj))


class Context(P):
    follow_eh = False

    def __init__(self, ck, root, up, down, sign):
        P.__init__(self, ck, root)
        self.up, self.down, self.sign = up, down, sign
        self.drop_dead = False

    def elem(self, eng, f, e, st):
        if e["op"] == "init" and e.get("m") and e.get("a"):
            v = eng.val(f, e["a"][0], st)
            x = f.el.get(e["a"][0])
            if x and x["op"] == "list" and len(x["a"]) == 1:
                v = eng.val(f, x["a"][0], st)
            return [st.set("this." + e["m"], v)]
        return None

    def call(self, eng, f, e, st, depth):
        if e.get("fn") == self.up:
            return [(E.AV(self.sign), st)]
        if e.get("fn") == self.down:
            return [(E.UNK, st.with_ts(st.ts + 1))]
        return None


class Check:

    def __init__(self, fx, rep):
        self.fx, self.rep = fx, rep
        self._rel = {}
        self._has = {}
        self._keeps = {}

    def has_release(self, g):
        r = self._has.get(g.key)
        if r is None:
            r = any(e["op"] == "call" and release_of(e.get("fn", ""))
                    for e in g.elems())
            self._has[g.key] = r
        return r

    @staticmethod
    def finalizer(f, e):
        """Whether a lambda is given to gsl::finally or the like."""
        for x in f.elems():
            if x["op"] in ("call", "ctor") and e["i"] in x.get("a", ()):
                if "final" in x.get("fn", "") or "final" in f.t(x):
                    return True
        return False

    def relevant(self, g):
        """Functions entered from their callers."""
        r = self._rel.get(g.key)
        if r is None:
            r = bool(RAW.match(g.ret)) or (
                any(RAW.match(p[2].rstrip("*& ") + " *") or p[2] in (
                    "char *", "int", "int *") for p in g.params) and
                self.has_release(g)) or (
                    g.kind == "lambda" and self.has_release(g)) or any(
                    re.match(r"^(git_\w+|char|_IO_FILE) \*(\*|&)$", p[2])
                    for p in g.params)
            self._rel[g.key] = r = r and len(g.el) < 600
        return r

    def keeps(self, g, j):
        """Whether a parameter is stored in a field."""
        k = (g.key, j)
        if k not in self._keeps:
            v = g.params[j][0]
            self._keeps[k] = any(
                e["op"] == "asg" and g.el.get(e["a"][0], {}).get("op") ==
                "mem" and g.el.get(e["a"][1], {}).get("v") == v
                for e in g.elems())
        return self._keeps[k]

    def uses_handles(self, g):
        for e in g.elems():
            if e["op"] == "call" and not self.fx.has(e.get("fk") or ""):
                fn = strip(e.get("fn", ""))
                if fn in RET or fn == "mkdtemp" or release_of(fn) or \
                        out_arg(g, e):
                    return True
            if e["op"] == "call" and self.fx.has(e.get("fk") or "") and \
                    RAW.match(g.t(e)):
                return True
        return False

    def contexts(self):
        """Libraries set up in a constructor are shut down in the
        destructor if and only if that has succeeded."""
        n = 0
        for g in self.fx.funcs(lambda g: g.kind == "ctor" and g.blocks):
            for e in g.elems():
                if e["op"] == "call" and e.get("fn") in CONTEXT:
                    n += 1
                    self.context(g, e["fn"])
        return n

    def context(self, g, fn):
        down, ok, ko = CONTEXT[fn]
        dtor = next((d for d in self.fx.funcs() if d.kind == "dtor" and
                     d.cls == g.cls), None)
        where = f"class {F.plain(g.cls)}"
        self.rep.ob(where + ":shutdown", dtor is not None,
                    f"{g.loc()}: {where} never calls {down}")
        if dtor is None:
            return
        good = True
        for sign, want in ((ok, 1), (ko, 0)):
            pol = Context(self, g, fn, down, sign)
            for o in E.Engine(self.fx, pol).run(g, E.State({}, 0)):
                if o.how != "ret":
                    continue
                env = {k: v for k, v in o.st.env.items()
                       if isinstance(k, str) and k.startswith("this.")}
                for x in E.Engine(self.fx, pol).run(dtor, E.State(env, 0)):
                    good = good and x.st.ts == want
        self.rep.ob(where + ":balance", good,
                    f"{dtor.loc()}: {down} is not called exactly when {fn} "
                    "has succeeded", sample=where + " " + down)

    def releasing(self, key, kind_of):
        """Violations of a deleter: function given the handle released."""
        g = self.fx.func(key)
        if g is None:
            return "its code is unknown"
        pol = P(self, g)
        eng = E.Engine(self.fx, pol)
        if not g.params:
            return "it takes nothing"
        res = None
        rid = (kind_of, g.key, "param")
        st = E.State({g.params[0][0]: E.AV(POS, None, ("res", rid))},
                     frozenset([("open", rid)]))
        for o in eng.run(g, st):
            if o.how == "ret" and pol.state(o.st, rid) != "closed":
                res = "it does not release the handle on every path"
        for (_, why), _ in pol.bad.items():
            res = why
        pol2 = P(self, g)
        eng2 = E.Engine(self.fx, pol2)
        eng2.run(g, E.State({g.params[0][0]: E.V0}, frozenset()))
        for (_, why), _ in pol2.bad.items():
            res = why
        return res

    def kind_for(self, obj, g):
        if obj in ("_IO_FILE", "FILE"):
            return "FILE"
        if obj == "archive":
            for e in g.elems():
                r = e["op"] == "call" and release_of(e.get("fn", ""))
                if r and r[0] in ("archive_read", "archive_write", "archive"):
                    return r[0]
            return "archive"
        return {"Curl_URL": "curl_url", "CURLU": "curl_url",
                "CURL": "curl", "void": "curl", "__dirstream": "DIR"}.get(obj, obj)

    def function(self, g):
        rep = self.rep
        pol = P(self, g)
        eng = E.Engine(self.fx, pol)
        outs = eng.run(g, E.State({}, frozenset()))
        name = f"{g.file}:{g.q}"
        for o in outs:
            back = o.val.tag[1] if o.val is not None and o.val.tag and \
                o.val.tag[0] == "res" else None
            for s, rid in o.st.ts:
                if s == "open" and rid != back and not (
                        rid[0] in STRUCTS and "." in str(rid[2])):
                    pol.complain(g, o.e or {}, rid, "not released on a path "
                                 "that ends " + ("with an exception"
                                                 if o.how != "ret" else
                                                 "at the return"))
        for (kind, why), (f, e) in pol.bad.items():
            rep.ob(f"{g.file}:{F.plain(g.q)}:{kind}:{why}", False,
                   f"{f.loc(e) if e else f.loc()}: {kind} {why} "
                   f"(in {F.plain(g.q)})")
        for k, i in pol.acq | pol.rels:
            rep.ob(f"{name}:{k}:{i}", True,
                   sample=self.fx.func(k).loc(self.fx.func(k).el[i]) + " " +
                   str(self.fx.func(k).el[i].get("fn")))
        return pol

    def check_deleter(self, fk, i, arg, obj):
        f = self.fx.func(fk)
        e = f.el[arg]
        for _ in range(9):
            if e["op"] in ("cast", "un") or e["op"] == "call" and \
                    e.get("fn") in E.PASS or e["op"] == "ctor" and \
                    e.get("a") and len(e["a"]) == 1:
                e = f.el[e["a"][0]]
            else:
                break
        key = e.get("fk")
        if key is None and e["op"] == "ref" and e.get("v"):
            for x in f.elems():
                for d in x.get("d", ()):
                    if d["v"] == e["v"] and d.get("i") is not None:
                        key = f.el[d["i"]].get("fk")
        if key is None:
            # a lambda kept in a static variable: from its type
            m = re.search(r"\(lambda at [^)]*?:(\d+):(\d+)\)", f.t(e))
            for g in self.fx.lambdas_of(f):
                if m and g.line == int(m.group(1)):
                    key = g.key
        where = f"{f.file}:{F.plain(f.q)}"
        name = e.get("fn") or e.get("v") or "?"
        fn = strip(e.get("fn") or "")
        rel = release_of(fn)
        if rel and not self.fx.has(key or ""):
            want = self.kind_for(obj, f)
            self.rep.ob(f"{where}:deleter {fn}", same(want, rel[0]) or
                        same(rel[0], want),
                        f"{f.loc(f.el[i])}: {obj} is released by {fn}")
            return
        g = self.fx.func(key) if key and self.fx.has(key) else None
        if g is None:
            self.rep.note(f"deleter not found: {where} {name}")
            self.rep.ob(f"{where}:deleter", True)
            return
        why = self.releasing(key, self.kind_for(obj, g))
        self.rep.ob(f"{where}:deleter {F.plain(g.q)}", why is None,
                    f"{f.loc(f.el[i])}: deleter {F.plain(g.q)} of {obj}: "
                    f"{why}", sample=f"{where} deleter {F.plain(g.q)}")

    # ---- classes that own a handle
    def owner(self, cls, kind):
        rep, fx = self.rep, self.fx
        rec = None
        for k, r in fx.records.items():
            if F.plain(k) == F.plain(cls):
                rec, name = r, k
        where = f"class {F.plain(cls)}"
        if rec is None:
            rep.note(where + " has no definition")
            return
        ms = {}
        for m in rec["ms"]:
            ms.setdefault(m.get("ctor") or m["n"], []).append(m)
        dtor = None
        for f in fx.funcs():
            if f.kind == "dtor" and f.cls and F.plain(f.cls) == F.plain(cls):
                dtor = f
        rep.ob(where + ":dtor", dtor is not None,
               f"{rec['f']}:{rec['l']}: {where} owns a {kind} and has no "
               "destructor")
        if dtor is None:
            return
        if kind == "temporary file":
            self.removes(dtor, where)
            fields = []
        else:
            fields = [x["n"] for x in rec["fields"]
                      if RAW.match(x["ty"]) or kind == "fd" and
                      x["ty"] == "int"]
        for n in fields:
            rid = (kind, dtor.key, "field")
            pol = P(self, dtor)
            eng = E.Engine(fx, pol)
            ok = True
            sign = POS if kind != "fd" else ZERO | POS
            for o in eng.run(dtor, E.State(
                    {"this." + n: E.AV(sign, None, ("res", rid))},
                    frozenset([("open", rid)]))):
                ok = ok and pol.state(o.st, rid) == "closed"
            rep.ob(where + ":dtor releases " + n, ok and not pol.bad,
                   f"{dtor.loc()}: destructor of {where} does not release "
                   f"{n} on every path", sample=where + " " + n)
            pol = P(self, dtor)
            E.Engine(fx, pol).run(dtor, E.State(
                {"this." + n: E.V0 if kind != "fd" else
                 E.AV(E.NEG, -1)}, frozenset()))
            rep.ob(where + ":dtor null " + n, not pol.bad,
                   f"{dtor.loc()}: destructor of {where} releases {n} though "
                   "nothing was obtained")
        # copies
        deleted = {m["u"] for m in rec["ms"] if m.get("del")}
        copies = [m for m in rec["ms"] if m.get("ctor") == "copy"]
        moves = [m for m in rec["ms"] if m.get("ctor") == "move"]
        casg = [m for m in rec["ms"] if m["n"] == "operator=" and
                "#&1" in m["u"]]
        masg = [m for m in rec["ms"] if m["n"] == "operator=" and
                "#&&" in m["u"]]
        if kind == "temporary file" or fields:
            # implicit copies exist unless a move operation is declared
            for what, lst in (("copy constructor", copies),
                              ("copy assignment", casg)):
                ok = all(m["u"] in deleted for m in lst) if lst else bool(
                    moves or masg)
                rep.ob(where + ":" + what, ok,
                       f"{rec['f']}:{rec['l']}: {where} owns a {kind} and can "
                       f"be copied ({what})")
            for what, lst in (("move constructor", moves),
                              ("move assignment", masg)):
                for m in lst:
                    if m["u"] in deleted:
                        continue
                    g = fx.func(m["u"])
                    if g is None or not g.blocks or not g.params:
                        rep.ob(where + ":" + what, False,
                               f"{rec['f']}:{m['l']}: {what} of {where} "
                               "copies the handle")
                        continue
                    for n in fields:
                        self.moves(g, n, kind, where, what)

    def moves(self, g, n, kind, where, what):
        a, b = (kind, g.key, "this"), (kind, g.key, "other")
        p = g.params[0][0]
        env = {p + "." + n: E.AV(POS, None, ("res", b))}
        ts = [("open", b)]
        if what == "move assignment":
            env["this." + n] = E.AV(POS, None, ("res", a))
            ts.append(("open", a))
        pol = P(self, g)
        pol.drop_dead = False
        pol.moving = True
        eng = E.Engine(self.fx, pol)
        ok = True
        for o in eng.run(g, E.State(env, frozenset(ts))):
            t = o.st.get("this." + n)
            u = o.st.get(p + "." + n)
            held = [v.tag[1] for v in (t, u)
                    if v.tag and v.tag[0] == "res" and v.s != ZERO]
            for r in (a, b):
                if ("open", r) not in ts:
                    continue
                s = pol.state(o.st, r)
                k = held.count(r)
                if s == "open" and k != 1 or s == "closed" and k:
                    ok = False
        self.rep.ob(f"{where}:{what} {n}", ok and not pol.bad,
                    f"{g.loc()}: {what} of {where} loses or doubles {n}",
                    sample=f"{where} {what} {n}")

    def removes(self, dtor, where):
        """The destructor removes the temporary directory on every path."""
        blocks = [b for b, B in dtor.blocks.items() if any(
            e["op"] == "call" and re.search(
                r"RemoveDirectory|remove_all|rmdir", e.get("fn", ""))
            for e in B["e"])]
        seen, todo = set(), [dtor.entry]
        while todo:
            b = todo.pop()
            if b in seen or b in blocks or b not in dtor.blocks:
                continue
            seen.add(b)
            todo.extend(dtor.blocks[b]["s"])
        self.rep.ob(where + ":removes", bool(blocks) and
                    dtor.exit not in seen,
                    f"{dtor.loc()}: destructor of {where} does not remove the "
                    "temporary directory on every path", sample=where)


def run(fx, rep):
    rep.rule("a handle obtained is released by its function or given to an "
             "owner exactly once on every path, and not used afterwards")
    rep.rule("deleters of smart pointers release what they are given, with "
             "the right function, and accept null where it can occur")
    rep.rule("a library set up in a constructor is shut down in the "
             "destructor if and only if that succeeded")
    rep.rule("destructor, move and copy operations of classes owning a "
             "handle keep one owner per handle")
    ck = Check(fx, rep)
    n = acq = 0
    owners, dels = set(), set()
    for g in fx.funcs(lambda g: g.blocks):
        if not ck.uses_handles(g):
            continue
        n += 1
        pol = ck.function(g)
        acq += len(pol.acq)
        owners |= pol.owners
        dels |= pol.deleters
    # fields initialised from a handle
    for g in fx.funcs(lambda g: g.kind in ("ctor", "method")):
        for e in g.elems():
            if e["op"] == "init" or e["op"] == "asg":
                src = e["a"][-1]
                x = g.el.get(src)
                for _ in range(5):
                    if x is not None and x["op"] in ("list", "cast") and \
                            x.get("a"):
                        x = g.el.get(x["a"][0])
                if x is not None and x["op"] == "call" and \
                        strip(x.get("fn", "")) in RET and (
                            e["op"] == "init" or
                            g.el[e["a"][0]]["op"] == "mem"):
                    owners.add((g.cls, RET[strip(x["fn"])][0]))
    seen = set()
    for fk, i, arg, obj in sorted(dels, key=str):
        ck.check_deleter(fk, i, arg, obj)
    for cls, kind in sorted(owners, key=str):
        if cls and (cls, kind) not in seen:
            seen.add((cls, kind))
            ck.owner(cls, kind)
    rep.count("functions handling handles", n, 40)
    rep.count("places where a handle is obtained", acq, 50)
    rep.count("libraries set up and shut down", ck.contexts(), 2)
    rep.count("deleters", len(dels), 15)
    rep.count("classes owning a handle", len(seen), 2)
