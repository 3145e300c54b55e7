"""Propagation of I/O failures.

Every call of a fallible primitive is forked into success and failure; the
failure is carried as the typestate (kind, primitive, line) and every outcome
of the calling function under a failure is classified. Functions whose outcome
signals the failure become fallible themselves, for the same kind, and so on
to a fixed point over the call graph (callees first)."""
import re

import engine as E

NEG, ZERO, POS, TOP = E.NEG, E.ZERO, E.POS, E.TOP
# success value, failure value
M = {
    "neg": (E.AV(ZERO | POS), E.const(-1)),
    "nz": (E.AV(ZERO, 0), E.AV(NEG | POS)),
    "nzneg": (E.AV(ZERO, 0), E.AV(NEG)),
    "null": (E.VP, E.V0),
    "false": (E.TRUE, E.FALSE),
    "one": (E.const(1), E.const(0)),
    "short": (E.AV(POS), E.AV(NEG)),
}
LIBC = {
    "open": ("fs", "neg"), "write": ("fs", "neg"), "read": ("fs", "neg"),
    "rename": ("fs", "nzneg"), "link": ("fs", "nzneg"),
    "rmdir": ("fs", "nzneg"),
    "utimensat": ("fs", "nzneg"), "mkdtemp": ("fs", "null"),
    "mkstemp": ("fs", "neg"), "fopen": ("fs", "null"),
    "tmpfile": ("fs", "null"), "fork": ("proc", "neg"),
    "waitpid": ("proc", "neg"), "dup2": ("proc", "neg"),
    "chdir": ("proc", "nzneg"), "flock": ("fs", "nzneg"),
    "fsync": ("fs", "nzneg"), "fdatasync": ("fs", "nzneg"),
    "ftruncate": ("fs", "nzneg"), "symlink": ("fs", "nzneg"),
    "mkdir": ("fs", "nzneg"), "chmod": ("fs", "nzneg"),
    "fchmod": ("fs", "nzneg"), "futimens": ("fs", "nzneg"),
    "pipe": ("proc", "nzneg"),
    "SHA1_Init": ("hash", "one"), "SHA1_Update": ("hash", "one"),
    "SHA1_Final": ("hash", "one"), "SHA256_Init": ("hash", "one"),
    "SHA256_Update": ("hash", "one"), "SHA256_Final": ("hash", "one"),
    "SHA512_Init": ("hash", "one"), "SHA512_Update": ("hash", "one"),
    "SHA512_Final": ("hash", "one"),
    "curl_easy_init": ("net", "null"), "curl_easy_perform": ("net", "nz"),
    "curl_global_init": ("net", "nz"),
}
GIT_NOT = ("_free", "_dispose", "git_oid_cmp", "git_oid_equal",
           "git_oid_iszero", "git_repository_is", "git_error",
           "git_odb_exists", "git_oid_fmt", "git_libgit2_shutdown",
           "git_tree_entry_filemode", "git_object_type", "git_config_",
           "git_tag_list", "git_reference_name_to_id", "_options_init",
           "_init_callbacks", "git_odb_object_")
ARCH = ("archive_read_open_filename", "archive_read_next_header",
        "archive_read_next_header2", "archive_read_data_block",
        "archive_write_header", "archive_write_data",
        "archive_write_data_block", "archive_write_finish_entry",
        "archive_write_close", "archive_write_open_filename",
        "archive_read_disk_open", "archive_read_disk_descend",
        "archive_write_set_format", "archive_write_add_filter",
        "archive_read_support", "archive_write_disk_set",
        "archive_read_disk_set")
FS_THROW = {"copy", "copy_file", "create_directories", "create_directory",
            "create_directory_symlink", "create_symlink", "create_hard_link",
            "last_write_time", "permissions", "read_symlink", "remove_all",
            "rename", "remove", "resize_file", "file_size", "canonical",
            "absolute", "weakly_canonical", "current_path"}
STREAM = re.compile(r"^std::(basic_)?(o|i)?fstream")


def primitive(f, e):
    """(kind, mode) of a fallible external call."""
    fn, key = e.get("fn", ""), e.get("fk") or ""
    if fn in LIBC:
        return LIBC[fn]
    if fn == "close" and any(x.get("fn") == "write" for x in f.elems()
                             if x["op"] == "call"):
        return ("fs", "nzneg")
    if fn.startswith("git_"):
        if any(x in fn for x in GIT_NOT) or f.t(e) != "int":
            return None
        return ("git", "nzneg")
    if fn.startswith("archive_"):
        if fn.startswith(ARCH):
            if fn == "archive_write_data":
                return ("archive", "neg")
            return ("archive", "nzneg")
        if fn.endswith("_new"):
            return ("archive", "null")
        return None
    if fn.startswith("std::filesystem::"):
        n = fn[len("std::filesystem::"):]
        if n in FS_THROW:
            if "error_code" in key:
                return ("fs", "ec")
            return ("fs", "exc")
    return None


FALLIBLE_RET = re.compile(
    r"^(bool$|std::optional<|expected<|std::unique_ptr<|std::shared_ptr<|"
    r".*\*$)")


def ret_kind(g):
    t = g.ret.replace("const ", "")
    if t == "bool":
        return "bool"
    if t.startswith("std::optional<"):
        return "opt"
    if t.startswith("expected<"):
        return "exp"
    if t.startswith(("std::unique_ptr<", "std::shared_ptr<")) or \
            t.endswith("*"):
        return "ptr"
    if t in ("int", "long"):
        return "int"
    return None


def callback(f, o):
    """'logger', 'setter' or None for the object of a call."""
    e = f.el.get(o)
    d = 0
    while e is not None and d < 10:
        d += 1
        t = f.t(e).replace("const ", "")
        m = re.match(r"(?:std::shared_ptr<|gsl::not_null<)*"
                     r"std::function<void \((.*)\)>[>&* ]*$", t)
        if m:
            a = m.group(1)
            if re.match(r"(?:std::)?(__cxx11::)?(basic_)?string(<char>)? ?"
                        r"(const)? ?&, bool$", a):
                return "logger"
            if a.endswith("&&") and ", " not in re.sub(r"<.*>", "", a):
                return "setter"
            return None
        if e["op"] in ("cast", "un") or e.get("fn") in E.PASS:
            e = f.el.get(e["a"][0])
        elif e.get("o") is not None:
            e = f.el.get(e["o"])
        else:
            return None
    return None


class P(E.Policy):
    follow_eh = True
    max_depth = 0

    def __init__(self, an):
        self.an = an

    def fail(self, st, kind, name, e, f):
        return st.with_ts((kind, name, e.get("l")))

    def hand_over(self, f, e, st, ids):
        """The setter is handed on although an operation failed."""
        if st.ts is None or len(st.ts) != 3:
            return
        for i in ids:
            if callback(f, i) == "setter":
                self.an.set_after.setdefault((f.key, st.ts), e.get("l"))

    def elem(self, eng, f, e, st):
        if e["op"] == "lambda":
            self.hand_over(f, e, st, [c["i"] for c in e.get("caps", ())
                                      if c.get("i") is not None])
        return None

    def consumer(self, eng, f, e, st):
        """Calls of the callbacks of an asynchronous map's consumer."""
        if e.get("o") is None or not e.get("fn", "").startswith(
                "std::function<void (") and e.get("fn") != "std::invoke":
            if e.get("fn") != "std::invoke":
                return None
        o = e["o"] if e.get("fn") != "std::invoke" else e["a"][0]
        args = e["a"] if e.get("fn") != "std::invoke" else e["a"][1:]
        t = callback(f, o)
        if t == "logger":
            v = eng.val(f, args[1], st) if len(args) == 2 else E.UNK
            if st.ts is not None and v.s == POS:
                return [(E.UNK, st.with_ts(st.ts[:3] + ("reported",)))]
            return [(E.UNK, st)]
        if t == "setter":
            if st.ts is not None and len(st.ts) == 3:
                self.an.set_after.setdefault((f.key, st.ts), e.get("l"))
            return [(E.UNK, st)]
        return None

    def may_throw(self, eng, f, e):
        if e["op"] == "throw":
            return True
        if e["op"] != "call":
            return False
        p = primitive(f, e)
        if p is not None:
            return p[1] == "exc"
        return any(self.an.throws.get(k) for k in self.an.targets(f, e))

    def eh(self, eng, f, e, st):
        if st.ts is not None or e["op"] != "call":
            return [] if e["op"] == "call" else [st]
        p = primitive(f, e)
        if p is not None:
            return [self.fail(st, p[0], e["fn"], e, f)]
        kinds = set()
        for k in self.an.targets(f, e):
            kinds |= self.an.throws.get(k, set())
        return [self.fail(st, k, e["fn"], e, f) for k in sorted(kinds)]

    def stream(self, eng, f, e, st):
        o = e.get("o")
        n = e.get("fn", "").rsplit("::", 1)[-1]
        t = f.t(f.el.get(o, {})).replace("const ", "") if o is not None else ""
        if e["op"] == "call" and e.get("opk") == "<<":
            # file << data
            if o is None and e["a"]:
                o = e["a"][0]
                t = f.t(f.el.get(o, {}))
                if not STREAM.match(self.root_type(eng, f, o)):
                    return None
            n = "<<"
        if o is None or not STREAM.match(self.root_type(eng, f, o)):
            return None
        p = self.root_path(eng, f, o, st)
        if p is None:
            return None
        s = p + ".$st"
        if n in ("<<", "write", "put", "close", "flush", "open"):
            out = [(E.UNK, st)]
            if st.ts is None and not self.root_type(eng, f, o).startswith(
                    ("std::basic_ifstream", "std::ifstream")):
                out.append((E.UNK, self.fail(st, "fs", "stream " + n, e,
                                             f).set(s, E.V0)))
            return out
        if n in ("good", "operator bool", "is_open"):
            v = st.get(s)
            return [(eng.truth(v), st)]
        if n in ("fail", "bad", "operator!"):
            v = st.get(s)
            return [(E.FALSE if v.s == POS else E.TRUE if v.s == ZERO
                     else E.UNK, st)]
        return None

    def root_type(self, eng, f, o):
        e = f.el.get(o)
        d = 0
        while e is not None and d < 30:
            d += 1
            if e["op"] == "cast":
                e = f.el.get(e["a"][0])
            elif e["op"] == "call" and e.get("opk") == "<<":
                e = f.el.get(e["o"] if e.get("o") is not None else e["a"][0])
            else:
                return f.t(e).replace("const ", "")
        return ""

    def root_path(self, eng, f, o, st):
        e = f.el.get(o)
        d = 0
        while e is not None and d < 30:
            d += 1
            if e["op"] == "cast":
                e = f.el.get(e["a"][0])
            elif e["op"] == "call" and e.get("opk") == "<<":
                e = f.el.get(e["o"] if e.get("o") is not None else e["a"][0])
            else:
                return eng.path(f, e["i"], st)
        return None

    def call(self, eng, f, e, st, depth):
        fn = e.get("fn", "")
        if e["op"] == "ctor":
            t = f.t(e).replace("const ", "")
            if STREAM.match(t) and e.get("a") and not e.get("cm") and \
                    st.ts is None:
                return [(E.UNK, st)]
            return None
        if e["op"] == "call" and (e.get("fk") is None or
                                  self.an.fx.has(e["fk"])):
            self.hand_over(f, e, st, e["a"])
        r = self.stream(eng, f, e, st)
        if r is None:
            r = self.consumer(eng, f, e, st)
        if r is None and st.ts is not None and self.an.recheck(f, e):
            # the object is there although the attempt to create it failed
            r = [(E.TRUE, st.with_ts(None)), (E.FALSE, st)]
        if r is not None:
            return r
        p = primitive(f, e)
        if p is not None:
            kind, mode = p
            base = eng.havoc(f, e, st)
            if mode == "exc":
                return None
            if st.ts is not None:
                return [(E.UNK, base)]
            bad = self.fail(base, kind, fn, e, f)
            if mode == "ec":
                for a in e["a"]:
                    if "error_code" in f.t(f.el.get(a, {})):
                        ep = eng.path(f, a, st)
                        if ep is not None:
                            t = f.t(e).replace("const ", "")
                            return [(E.UNK, base.set(ep, E.V0)),
                                    (E.FALSE if t == "bool" else E.UNK,
                                     bad.set(ep, E.VP))]
                return [(E.UNK, base), (E.UNK, bad)]
            ok, ko = M[mode]
            return [(ok, base), (ko, bad)]
        kinds = set()
        for k in self.an.targets(f, e):
            kinds |= self.an.summary.get(k, set())
        if kinds:
            inv = any(k in self.an.inverted for k in self.an.targets(f, e))
            rk = None
            for k in self.an.targets(f, e):
                rk = self.an.rk.get(k)
            ok, ko = E.VP, E.V0
            if rk == "bool":
                ok, ko = E.TRUE, E.FALSE
            if rk == "int":
                ok, ko = E.AV(ZERO, 0), E.AV(NEG | POS)
            if inv:
                ok, ko = (E.V0, E.VP) if rk != "bool" else (ko, ok)
            base = eng.havoc(f, e, st)
            if st.ts is not None:
                return [(ok, base), (ko, base)]
            return [(ok, base)] + [
                (ko, self.fail(base, k, fn, e, f)) for k in sorted(kinds)]
        return None


class Analysis:

    def __init__(self, fx, inverted=(), skip=lambda g: False):
        self.fx = fx
        self.summary, self.throws, self.rk = {}, {}, {}
        self.inverted = set()
        self.inv_pred = inverted
        self.skip = skip
        self.over = {}          # base method -> overriding methods
        for g in fx.funcs():
            for b in g.d.get("ov", ()):
                self.over.setdefault(b, set()).add(g.key)
        self.set_after = {}
        self.results = {}       # key -> [(site, Out)]
        self.engines = {}

    def targets(self, f, e):
        k = e.get("fk")
        if k is None:
            return ()
        t = [k] if self.fx.has(k) else []
        if e.get("virt"):
            t += [x for x in self.over.get(k, ()) if self.fx.has(x)]
        return t

    RECHECK = {"FileSystemManager::IsFile", "FileSystemManager::Exists",
               "FileSystemManager::IsExecutable"}

    def recheck(self, f, e):
        return e.get("fn") in self.RECHECK and f.file.endswith(
            "file_system/file_storage.hpp")

    def order(self):
        """Functions, callees first; only those that can reach a primitive."""
        calls, direct = {}, set()
        for g in self.fx.funcs():
            cs = set()
            for e in g.elems():
                if e["op"] in ("call", "ctor"):
                    if e["op"] == "call" and primitive(g, e):
                        direct.add(g.key)
                    if e["op"] == "call" and STREAM.match(
                            g.t(g.el.get(e.get("o"), {})) if e.get("o")
                            is not None else ""):
                        direct.add(g.key)
                    cs.update(self.targets(g, e))
                elif e["op"] == "lambda" and e.get("fk"):
                    pass
            calls[g.key] = cs
        reach = set(direct)
        rev = {}
        for k, cs in calls.items():
            for c in cs:
                rev.setdefault(c, set()).add(k)
        todo = list(direct)
        while todo:
            k = todo.pop()
            for r in rev.get(k, ()):
                if r not in reach:
                    reach.add(r)
                    todo.append(r)
        out, seen = [], set()

        def visit(k):
            stack = [(k, iter(sorted(calls.get(k, ()))))]
            seen.add(k)
            while stack:
                x, it = stack[-1]
                for c in it:
                    if c not in seen and c in reach:
                        seen.add(c)
                        stack.append((c, iter(sorted(calls.get(c, ())))))
                        break
                else:
                    out.append(x)
                    stack.pop()
        for k in sorted(reach):
            if k not in seen:
                visit(k)
        return out

    def failing(self, g, o):
        """True: signals failure; False: success; None: cannot be told."""
        rk = self.rk[g.key]
        if rk is None:
            return None
        s = o.val.s
        if rk == "int":
            return True if not s & ZERO else False if s == ZERO else None
        fail = s == ZERO
        ok = not s & ZERO
        if g.key in self.inverted:
            fail, ok = ok, fail
        return True if fail else False if ok else None

    def run(self):
        self.todo = self.order()
        for k in self.todo:
            g = self.fx.func(k)
            self.rk[k] = ret_kind(g)
            if self.inv_pred(g):
                self.inverted.add(k)
        for k in self.todo:
            self.one(k)
        return self

    def one(self, k):
        g = self.fx.func(k)
        if self.skip(g):
            return
        eng = E.Engine(self.fx, P(self))
        outs = eng.run(g, E.State({}, None))
        self.results[k] = outs
        if eng.widened:
            self.engines[k] = True
        kinds, th = set(), set()
        for o in outs:
            if o.st.ts is None:
                continue
            if o.how == "throw":
                th.add(o.st.ts[0])
            elif self.failing(g, o):
                kinds.add(o.st.ts[0])
        if kinds:
            self.summary[k] = kinds
        if th:
            self.throws[k] = th
