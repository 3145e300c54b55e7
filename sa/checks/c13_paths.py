"""Paths, links and names from descriptions, archives and imported trees are
used only after they were found to stay inside the place they belong to.

For every place where such a value enters, the function it enters is evaluated
abstractly with a value that violates the condition (absolute; starting with
'..' once normalised; a file name with a slash, a NUL, or one of the special
names), and no use of the value may be reachable; with an acceptable value the
use must be reachable."""
import re

import engine as E
import facts as F
import lib
import prov as PV
import taint as T

LEVEL = "other"
EXPLANATION = __doc__
ASSUMPTIONS = [
    "std::filesystem::path: a path escapes its base iff it is absolute or its "
    "lexically normal form starts with '..'",
    "symbolic links on disk are not followed by the analysis",
    "local execution and the remote reader (they need protobuf messages) are "
    "not part of the analysed build",
]
PATHS, NAMES = T.PATH_BAD, T.NAME_BAD


def last(e):
    return F.plain(e.get("fn", "")).rsplit("::", 1)[-1]


def fn(e):
    return F.plain(e.get("fn", ""))


def literals(f, eid, depth=0):
    """String literals in an expression."""
    out, todo, seen = set(), [eid], set()
    while todo:
        i = todo.pop()
        if i in seen or i is None or i < 0:
            continue
        seen.add(i)
        e = f.el.get(i)
        if e is None:
            continue
        if e["op"] == "str":
            out.add(e.get("val"))
        todo.extend(E.Engine.children(e))
    return out


class Cx:

    def __init__(self, fx, rep):
        self.fx, self.rep = fx, rep
        self.P = PV.Prov(fx)

    def nest(self, q, pred=None):
        out = []
        for f in self.fx.named(q):
            for g in self.P.nest(f):
                if pred is None or pred(g):
                    out.append(g)
        if not out:
            raise F.AnalysisError("anchor vanished: " + q)
        return out


def use(f, e, t):
    """A marked value is handed to something that is not a predicate, a
    conversion, a message or a repository function (those are entered)."""
    if not (t - {"o"}):
        return False
    if e["op"] == "list":
        return "initializer_list" not in f.t(e)
    n = fn(e)
    if n.startswith(T.BENIGN_NS):
        return False
    if e["op"] == "ctor" and re.search(
            r"filesystem::path|basic_string|string_view|optional<|"
            r"basic_json|initializer_list|not_null<|shared_ptr<",
            f.t(e).split("<", 1)[0] + "<"):
        return False
    if e.get("fn", "").startswith("std::function<") and e.get(
            "o") is not None and T.is_log_type(f.t(f.el.get(e["o"], {}))):
        return False
    return True


def check(cx, name, what, f, source, sink, scenarios, init=None, minsrc=1,
          **more):
    rep = cx.rep
    spec = dict(more, source=source, sink=sink)
    pol, outs, eng = T.run(cx.fx, f, spec, None, init)
    if len(pol.seen_sources) < minsrc:
        raise F.AnalysisError(f"anchor vanished: {what} in {name}")
    good = set(pol.hits)
    if not good:
        raise F.AnalysisError(f"anchor vanished: use of {what} in {name}")
    for s in scenarios:
        pol, outs, eng = T.run(cx.fx, f, spec, s, init)
        hit = sorted(pol.hits.values(), key=lambda x: x[1]["i"])
        txt = ""
        if hit:
            g, e = hit[0]
            txt = (f"{what} that is {s} reaches "
                   f"{e.get('fn') or e['op']} at {g.loc(e)} ({name})")
        rep.ob(f"{name}: {what} {s}", not hit, txt,
               f"{name}: {what} {s} -> no use")
        if f.key in eng.widened:
            rep.note(f"states joined in {f.short()}")
    cx.sites = getattr(cx, "sites", 0) + 1


def calls(*names):
    return lambda f, e: e["op"] == "call" and last(e) in names


def lit_call(lit, *names):
    """A call of one of the names with the literal among its arguments."""
    def p(f, e):
        if e["op"] != "call" or last(e) not in names:
            return False
        return any(lit in literals(f, a) for a in e.get("a", ()))
    return p


def find_fn(cx, q, test):
    """The function (or closure) below q that has an element of interest."""
    out = [g for g in cx.nest(q) if any(test(g, e) for e in g.elems())]
    if not out:
        raise F.AnalysisError("anchor vanished: site in " + q)
    inner = {h.key for g in out for h in cx.P.nest(g)[1:]}
    return [g for g in out if g.key not in inner]


def descriptions(cx):
    # repository descriptions
    for q, lit, bad in (
            ("GitCheckout", "subdir", PATHS),
            ("ParseArchiveDescription", "subdir", PATHS),
            ("ParseForeignFileDescription", "name", NAMES)):
        src = lit_call(lit, "Get", "At")
        for g in find_fn(cx, q, src):
            check(cx, q.rsplit("::", 1)[-1], f'"{lit}"', g, src, use, bad)
    # target descriptions
    B = ""
    for q, lit in (("BlobGenRuleWithDeps", "name"),
                   ("CommonTreeRule", "name"),
                   ("GenericRuleWithDeps", "cwd")):
        src = lit_call(lit, "ReadOptionalExpression")
        for g in find_fn(cx, B + q, src):
            check(cx, q, f'"{lit}"', g, src, use, PATHS)


def mem(v):
    """Read of a data member, given by the end of its qualified name."""
    return lambda f, e: e["op"] == "mem" and e.get("v", "").endswith(v)


def ref_const(suffix):
    return lambda f, e: e["op"] == "ref" and e.get("v", "").endswith(suffix)


def rules(cx):
    """References and rule fields that reach the place from elsewhere."""
    # sources, modules and trees named by a target reference
    src = mem("NamedTarget::name")
    for g in find_fn(cx, "BuildMaps::Base::CreateSourceTargetMap", src):
        check(cx, "source reference", "file name", g, src, use, PATHS)
    fs = [g for g in cx.nest("BuildMaps::Base::CreateJsonFileMap")
          if any(mem("ModuleName::module")(g, e) for e in g.elems())]
    if not fs:
        raise F.AnalysisError("anchor vanished: CreateJsonFileMap")
    for g in fs:
        check(cx, "targets file", "module", g, mem("ModuleName::module"), use, PATHS)
    for g in find_fn(cx, "TreeTarget", src):
        check(cx, "tree reference", "directory name", g, src, use, PATHS)
    # symlinks and actions defined by rules
    data = lit_call("data", "ReadOptionalExpression")

    def is_link(f, e):
        if e["op"] == "call" and last(e) == "IsSymlinkObject":
            return E.TRUE
        return None
    for g in find_fn(cx, "BlobGenRuleWithDeps", data):
        check(cx, "symlink rule", '"data"', g, data, use, PATHS,
              assume=is_link)

    def is_call(lit):
        def p(f, e):
            return e["op"] == "call" and last(e) == "operator()" and \
                e.get("fn", "").startswith("std::function<") and \
                lit in own_literals(f, e)
        return p
    cwd, sdata = is_call("cwd"), is_call("data")
    for g in find_fn(cx, "withDependencies", cwd):
        check(cx, "ACTION", '"cwd"', g, cwd, use, PATHS)
    n = 0
    for g in find_fn(cx, "withDependencies", sdata):
        if any(ref_const("ObjectType::Symlink")(g, e) for e in g.elems()):
            check(cx, "SYMLINK", '"data"', g, sdata, use, PATHS)
            n += 1
    if not n:
        raise F.AnalysisError("anchor vanished: SYMLINK function")
    rel = calls("lexically_relative")
    for g in find_fn(cx, "FromSubdirExpr", rel):
        check(cx, "from_subdir", "relative path", g, rel, use, ("upwards",))


def own_literals(f, e):
    out = set()
    for a in e.get("a", ()):
        out |= literals(f, a)
    return out


def links(cx):
    """Symbolic links: only links that do not leave their directory."""
    rep, fx = cx.rep, cx.fx
    for g in cx.nest("FileSystemManager::CreateNonUpwardsSymlink"):
        if g.kind == "lambda":
            continue
        ini = {g.params[0][0]: T.Guard.tainted("raw")}
        check(cx, "CreateNonUpwardsSymlink", "link content", g,
              lambda f, e: False,
              lambda f, e, t: 0 in t and last(e).lower().replace(
                  "_", "") in ("createsymlink", "createdirectorysymlink",
                               "symlink", "symlinkat"),
              PATHS, init=ini, minsrc=0, ts=("bad",), explicit=True)


def may_be(v, s):
    return bool(v.s & s)


def engaged(o):
    """The outcome may be a value."""
    return o.val is None or may_be(o.val, E.POS)


def outcome(cx, name, f, spec, scenario, bad, init=None, needsrc=True):
    """No outcome of f is bad() when the source yields an unacceptable
    value."""
    spec = dict(spec)
    spec.setdefault("sink", lambda f, e, t: False)
    spec.setdefault("source", lambda f, e: False)
    pol, outs, eng = T.run(cx.fx, f, spec, scenario, init)
    if needsrc and not pol.seen_sources:
        raise F.AnalysisError("anchor vanished: source in " + name)
    hit = [o for o in outs if o.how == "ret" and (
        "bad" in o.st.ts or not needsrc) and bad(o)]
    hit2 = sorted(pol.hits.values(), key=lambda x: x[1]["i"])
    at = hit2[0][0].loc(hit2[0][1]) if hit2 else f.loc()
    cx.rep.ob(f"{name} [{scenario or '-'}]", not hit and not hit2,
              f"{name}: violated at {at}", f"{name}: {scenario or 'holds'}")
    cx.sites = getattr(cx, "sites", 0) + 1


def top(cx, q, nparams=None):
    out = [f for f in cx.fx.named(q) if f.kind != "lambda" and f.blocks and (
        nparams is None or len(f.params) == nparams)]
    if not out:
        raise F.AnalysisError("anchor vanished: " + q)
    return out


def param(f, n):
    for p in f.params:
        if p[1] == n:
            return p[0]
    raise F.AnalysisError(f"anchor vanished: parameter {n} of {f.short()}")


def bool_params(f):
    return [p[0] for p in f.params if f.fx.type(p[2]) in ("bool",
                                                         "const bool")]


def table(**kw):
    """Fixed results of calls, by the last part of the callee's name."""
    t = {k: (E.TRUE if v else E.FALSE) for k, v in kw.items()}

    def p(f, e):
        if e["op"] == "call":
            return t.get(last(e))
        return None
    return p


def predicates(cx):
    """The predicates everything else relies on."""
    for s in PATHS:
        for g in top(cx, "PathIsNonUpwards"):
            outcome(cx, "PathIsNonUpwards", g, {}, s,
                    lambda o: may_be(o.val, E.POS | E.NEG),
                    {g.params[0][0]: T.Guard.tainted("raw")}, False)
        for g in top(cx, "PathIsConfined"):
            outcome(cx, "PathIsConfined", g, {}, s,
                    lambda o: may_be(o.val, E.POS | E.NEG),
                    {g.params[0][0]: T.Guard.tainted("raw")}, False)
    for g in top(cx, "PathIsConfined"):
        # the link is resolved relative to the directory it is in
        ok = any(e["op"] == "call" and last(e) == "parent_path"
                 for e in g.elems())
        cx.rep.ob("PathIsConfined: relative to the parent", ok,
                  f"PathIsConfined ({g.loc()}) does not resolve the link "
                  "relative to the directory containing it")
    for s in NAMES:
        for g in top(cx, "IsValidFileName"):
            outcome(cx, "IsValidFileName", g, {}, s,
                    lambda o: may_be(o.val, E.POS | E.NEG),
                    {g.params[0][0]: T.Guard.tainted("raw")}, False)


def filesystem(cx):
    rd = calls("read_symlink")
    for g in top(cx, "FileSystemManager::IsNonUpwardsSymlink"):
        for s in PATHS:
            outcome(cx, "IsNonUpwardsSymlink of an escaping link", g,
                    {"source": rd}, s,
                    lambda o: may_be(o.val, E.POS | E.NEG),
                    {param(g, "non_strict"): E.FALSE})
    kinds = {"is_symlink": E.TRUE, "is_regular_file": E.FALSE,
             "is_directory": E.FALSE}

    def link(f, e):
        # the status that was asked for is that of a link
        if e["op"] == "call" and len(e.get("a", ())) == 1 and \
                "file_status" in f.t(f.el.get(e["a"][0], {})):
            return kinds.get(last(e))
        return None

    def not_followed(o):
        return "good" not in o.st.ts and engaged(o)
    for g in top(cx, "FileSystemManager::Type"):
        for s in PATHS:
            outcome(cx, "type of an escaping link", g,
                    {"assume": link, "source": rd}, s, not_followed,
                    {param(g, "allow_upwards"): E.FALSE}, False)
    for g in top(cx, "FileSystemManager::ReadDirectory"):
        for s in PATHS:
            outcome(cx, "directory entry that is an escaping link", g, {
                "assume": link, "source": rd,
                "sink": lambda f, e, t, g=g: e["op"] == "call" and f is g and
                last(e) in ("operator()", "invoke") and "function<" in e.get(
                    "fn", "") + f.t(f.el.get((e.get("a") or [-1])[0], {}))
            }, s, lambda o: False, {param(g, "allow_upwards"): E.FALSE,
                                    param(g, "ignore_special"): E.FALSE},
                    False)


def git(cx):
    dat = calls("git_odb_object_data")
    for g in top(cx, "GitCAS::ReadObject"):
        for s in PATHS:
            outcome(cx, "object read as link", g,
                    {"source": dat, "assume": table(IsTreeObject=False)}, s,
                    engaged, {param(g, "as_valid_symlink"): E.TRUE})
    # trees containing links are checked

    def is_ids(f, e):
        return "vector<ArtifactDigest" in f.t(f.el.get(e, {}))

    def chk(f, e):
        if e["op"] != "call" or last(e) not in ("invoke", "operator()"):
            return False
        ops = list(e.get("a", ())) + [e.get("o", -1)]
        return any(is_ids(f, a) for a in ops)

    def assume(f, e):
        if e["op"] != "call":
            return None
        n = last(e)
        if n in ("any_of", "IsSymlinkObject", "find_if"):
            return E.TRUE
        if n == "all_of" or n == "none_of":
            return E.FALSE
        if chk(f, e):
            return E.FALSE
        return None

    def count(f, e, st):
        if e["op"] == "call" and is_ids(f, e.get("o", -1)):
            some = "collected" in st.ts
            if last(e) == "empty":
                return E.const(not some)
            if last(e) == "size" and not some:
                return E.const(0)
        return None

    def effect(f, e):
        n = last(e)
        if f.key not in here:
            return ()
        if e["op"] == "call" and n in ("any_of", "IsSymlinkObject", "all_of",
                                       "none_of", "find_if"):
            return ("link", )
        if e["op"] == "call" and n in ("emplace_back", "push_back",
                                       "insert", "emplace") and is_ids(
                                           f, e.get("o", -1)):
            return ("collected", )
        if chk(f, e):
            return ("checked", )
        return ()
    here = {h.key for g in top(cx, "GitRepo::ReadTree")
            for h in cx.P.nest(g)}
    for g in top(cx, "GitRepo::ReadTree"):
        init = {param(g, "ignore_special"): E.FALSE}
        spec = {"assume": assume, "effect": effect, "assume_st": count}
        n = "tree with links that fail the check"
        outcome(cx, n, g, spec, None,
                lambda o: engaged(o) and "checked" in o.st.ts, init, False)
        outcome(cx, "tree with links that are not checked", g, spec, None,
                lambda o: engaged(o) and "link" in o.st.ts and not (
                    {"checked", "collected"} <= o.st.ts), init, False)
    # whoever reads a link reads it as a link
    sym = table(IsSymlinkObject=True, IsBlob=True)

    def notlink(eng, f, e, st):
        if e["op"] != "call" or e.get("fn", "") != "GitCAS::ReadObject":
            return False
        if len(e["a"]) < 3:
            return True
        return may_be(eng.val(f, e["a"][2], st), E.ZERO)
    for q, p in (("GitTreeEntry::Blob", None),
                 ("RepositoryConfig::ReadBlobFromGitCAS", "is_symlink"),
                 ("FileRoot::ReadBlob", "is_symlink"),
                 ("SymlinksChecker::operator()", None)):
        for g in top(cx, q):
            for h in cx.P.nest(g):
                if not any(e.get("fn") == "GitCAS::ReadObject"
                           for e in h.elems()):
                    continue
                outcome(cx, q + " reads links as links", h,
                        {"assume": sym, "esink": notlink}, None,
                        lambda o: False,
                        {param(g, p): E.TRUE} if p else None, False)


def resolving(cx):
    def out(f, e, t):
        return e["op"] == "call" and last(e) == "operator()" and e.get(
            "fn", "").startswith("std::function<") and e.get(
                "o") is not None and not T.is_log_type(
                    f.t(f.el.get(e["o"], {})))
    src = mem("symlink_content")
    kinds = {"IsFileObject": False, "IsTreeObject": False}
    for g in top(cx, "ResolveKnownEntry"):
        check(cx, "resolving links", "link content", g, src, out, PATHS,
              assume=table(**kinds), ts=("bad", ), explicit=True)

        def kept(f, e, t):
            if "ResolvedGitObject" not in f.t(e) or e["op"] not in (
                    "list", "ctor"):
                return False
            for a in e.get("a", ()):
                x = f.el.get(a, {})
                if x.get("op") == "ref" and x.get("v", "").endswith(
                        "ObjectType::Symlink"):
                    return True
                if x.get("op") == "mem" and x.get("v", "").endswith(
                        "TreeEntryInfo::type"):
                    return True
            return False
        check(cx, "resolving links", "link that is kept", g, src, kept,
              PATHS, assume=table(PathIsConfined=True, **kinds),
              ts=("bad", ), explicit=True)


def archives(cx):
    """Entries of archives are extracted below the destination."""
    for what, name in (("entry path", "archive_entry_pathname"),
                       ("hard link", "archive_entry_hardlink")):
        src = lambda f, e, n=name: e["op"] == "call" and last(
            e).startswith(n)
        fs = [g for g in top(cx, "ArchiveOps::ExtractArchive")
              if any(src(g, e) for e in g.elems())]
        if not fs:
            raise F.AnalysisError("anchor vanished: " + name)
        for g in fs:
            check(cx, "archive extraction", what, g, src,
                  lambda f, e, t: e["op"] == "call" and last(
                      e) == "archive_write_header", PATHS, explicit=True)
    for g in fs:
        flag = [e for e in g.elems() if e["op"] == "int" and
                e.get("val") == 0x100]
        cx.rep.ob("archive extraction: links inside the archive",
                  bool(flag),
                  f"ArchiveOps::ExtractArchive ({g.loc()}) extracts entries "
                  "through symbolic links of the archive "
                  "(ARCHIVE_EXTRACT_SECURE_SYMLINKS is not requested)")


def invocation_log(cx):
    seen = set()
    for g in cx.nest("CallJust"):
        for e in g.elems():
            if e["op"] == "mem" and "InvocationLogArguments::" in e.get(
                    "v", "") and "optional<std::basic_string" in g.t(
                        e).replace("std::__cxx11::", "std::"):
                seen.add((g.key, e["v"]))
    names = sorted({v for k, v in seen})
    if len(names) < 5:
        raise F.AnalysisError("anchor vanished: invocation log names")
    for g in top(cx, "CallJust"):
        used = 0
        for v in names:
            src = mem(v)

            def others(f, e, v=v):
                # the other names are not given
                if e["op"] == "mem" and e.get("v") in names and \
                        e["v"] != v and not e["v"].endswith("::directory"):
                    return E.V0
                return None
            put = lambda f, e, t: bool(t - {"o"}) and e[
                "op"] == "call" and last(e) in (
                    "operator/", "operator/=", "append", "emplace_back",
                    "push_back")
            if v.endswith("::directory"):
                continue
            pol, _, _ = T.run(cx.fx, g, {
                "source": src, "sink": put, "explicit": True,
                "assume": others}, None)
            if not pol.hits:
                continue        # not a file name
            used += 1
            check(cx, "invocation log", v.rsplit("::", 1)[-1], g, src, put,
                  NAMES, explicit=True, assume=others)
        if used < 6:
            raise F.AnalysisError("anchor vanished: invocation log names")


def trees(cx):
    """Action inputs are collected in a tree of valid names."""
    for g in top(cx, "DirectoryTree::AddArtifact", 2):
        init = {g.params[0][0]: T.Guard.tainted("raw")}
        for s in ("absolute", ):
            outcome(cx, "input at an absolute path", g, {}, s,
                    lambda o: may_be(o.val, E.POS | E.NEG), init, False)
    for g in top(cx, "DirectoryTree::AddArtifact", 3):
        src = lambda f, e: e["op"] == "call" and last(e) == "operator*"            and "path" in f.t(e) and "optional" not in e.get("fn", "")
        put = lambda f, e, t: e["op"] == "call" and last(e) in (
            "emplace", "try_emplace", "insert", "insert_or_assign",
            "operator[]") and e.get("o") is not None
        check(cx, "input path", "segment", g, src, put,
              ("dot", "dotdot"), explicit=True)


def makes(f, e):
    """Something is made of a stage: a target, a tree, an action, or the
    answer of the map consumer."""
    n = last(e)
    if e["op"] == "call" and n in ("make_shared", "emplace_back", "push_back"
                                   ) and re.search(
            r"AnalysedTarget|ActionDescription|\bTree\b", f.t(e) + f.t(
                f.el.get(e.get("o", -1), {}))):
        return True
    if e["op"] in ("list", "ctor") and re.search(
            r"\b(TargetResult|AnalysedTarget|ActionDescription|Tree)\b",
            f.t(e)) and "shared_ptr" not in f.t(e):
        return True
    return e["op"] == "call" and n in ("createAction", "CreateTree")


def through(cx, f, eid, *names):
    """The value comes out of one of the functions."""
    return any(x[0] == "fn" and x[1] and F.plain(x[1]).endswith(names)
               for x in cx.P.of(f, eid))


# Functions whose stages are merged from stages of other targets: paths that
# coincide once normalised are refused when the inputs are put into a
# DirectoryTree.


def conflicts(cx):
    """Stages with conflicting or escaping paths are refused."""
    for g in top(cx, "BuildMaps::Target::Utils::tree_conflict"):
        src = lambda f, e: e["op"] == "ref" and e.get(
            "k") == "b" and "basic_string" in f.t(e)
        put = lambda f, e, t: bool(t - {"o"}) and e["op"] == "call" and last(
            e) in ("insert", "emplace", "push_back", "emplace_back")
        check(cx, "tree_conflict", "path", g, src, put, PATHS,
              explicit=True, normalised=True)
    for g in top(cx, "BuildMaps::Target::Utils::artifacts_tree"):
        n = 0
        for h in cx.P.nest(g):
            for e in h.elems():
                if e["op"] == "call" and last(e) in (
                        "emplace", "insert", "try_emplace", "operator[]",
                        "insert_or_assign") and e.get("a"):
                    n += 1
                    ok = through(cx, h, e["a"][0], "ToNormalPath",
                                 "lexically_normal")
                    cx.rep.ob("artifacts_tree: normalised", ok,
                              f"artifacts_tree stores a key that is not "
                              f"normalised at {h.loc(e)}")
        if not n:
            raise F.AnalysisError("anchor vanished: artifacts_tree")
    is_tc = lambda e: e["op"] == "call" and last(e) == "tree_conflict"
    is_at = lambda e: e["op"] == "call" and last(e) == "artifacts_tree"
    sites = 0
    for g in [x for x in cx.fx.grep("tree_conflict") if "/target_map/" in x.file]:
        if g.q.endswith(("::tree_conflict", "::artifacts_tree")):
            continue
        calls_ = [e for e in g.elems() if is_tc(e)]
        if not calls_:
            continue
        sites += len(calls_)
        for c in calls_:
            for what, val, bad in (("conflict", E.VP, True),
                                   ("no conflict", E.V0, False)):
                spec = {
                    "source": lambda f, e: False,
                    "sink": lambda f, e, t: False, "shallow": True,
                    "assume": lambda f, e, c=c, val=val, g=g: val
                    if f is g and e is c else None,
                    "effect": lambda f, e, c=c, g=g: ("checked", )
                    if f is g and e is c else (),
                    "esink": lambda eng, f, e, st: "checked" in st.ts and
                    makes(f, e)}
                pol, outs, eng = T.run(cx.fx, g, spec, None)
                if bad:
                    hit = sorted(pol.hits.values(), key=lambda x: x[1]["i"])
                    cx.rep.ob(
                        f"stage with a conflict: {g.short()}", not hit,
                        f"a stage with a conflict found at {g.loc(c)} is "
                        f"used at {hit[0][0].loc(hit[0][1])}" if hit else "",
                        f"{g.loc(c)}: conflict -> no target, tree or action")
            # between the normalised keys
            if g.q.endswith("::GenericRuleWithDeps"):
                continue
            ok = through(cx, g, c["a"][0], "artifacts_tree")
            cx.rep.ob(f"stage is normalised: {g.short()}", ok,
                      f"conflicts are looked for at {g.loc(c)} between paths "
                      "that are not normalised")
        for c in [e for e in g.elems() if is_at(e)]:
            spec = {
                "source": lambda f, e: False,
                "sink": lambda f, e, t: False, "shallow": True,
                "assume": lambda f, e: E.TRUE if e["op"] == "call" and last(
                    e) == "holds_alternative" and "basic_string" in (
                        e.get("ta") or e.get("fn", "")) else None,
                "effect": lambda f, e, c=c, g=g: ("checked", )
                if f is g and e is c else (),
                "esink": lambda eng, f, e, st: "checked" in st.ts and
                (makes(f, e) or is_tc(e))}
            pol, outs, eng = T.run(cx.fx, g, spec, None)
            hit = sorted(pol.hits.values(), key=lambda x: x[1]["i"])
            cx.rep.ob(f"paths that coincide: {g.short()}", not hit,
                      f"a stage with coinciding paths at {g.loc(c)} is used "
                      f"at {hit[0][0].loc(hit[0][1])}" if hit else "")
    if sites < 6:
        raise F.AnalysisError("anchor vanished: calls of tree_conflict")
    cx.sites += sites


def run(fx, rep):
    cx = Cx(fx, rep)
    rep.rule("a value violating the condition does not reach a use")
    predicates(cx)
    descriptions(cx)
    rules(cx)
    links(cx)
    filesystem(cx)
    git(cx)
    resolving(cx)
    archives(cx)
    invocation_log(cx)
    trees(cx)
    conflicts(cx)
    rep.count("sites", cx.sites)
