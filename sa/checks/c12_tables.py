"""Finite tables agree: object types, git modes, permissions, pragma names,
hash kinds, archive formats and storage directories. Every enumerator is
pushed through the functions by constant propagation over their control-flow
graphs (all paths), and the results are compared with each other and with the
git and tar formats."""
import engine as E
import lib as L

ID = "C12"
LEVEL = "proof"
EXPLANATION = __doc__

F_, X_, T_, S_ = range(4)
GIT = {33188: F_, 33261: X_, 16384: T_, 40960: S_}
OTHER_MODES = (0, 57344, 33200)


def run(fx, rep):
    L.enum_is(fx, "ObjectType", ["File", "Executable", "Tree", "Symlink"])
    rep.rule("constant propagation over all enumerators; results compared "
             "pairwise (inverse functions, classification tables)")
    unknown = []

    def res(g, args):
        r = L.results(fx, g, args)
        if r is None:
            unknown.append(f"{g.short()}{args}")
        return r

    def check(key, g, args, want, text):
        r = res(g, args)
        if r is not None:
            rep.ob(key, r == {want}, f"{g.file}:{g.line}: {text}: got "
                   f"{sorted(map(repr, r))}, expected {want!r}",
                   f"{g.short()}{tuple(args)} = {sorted(map(repr, r))}")

    # object types and their characters
    tochar, fromchar = L.one(fx, "ToChar"), L.one(fx, "FromChar")
    chars = {}
    for t in range(4):
        r = res(tochar, [t])
        if r and len(r) == 1:
            c = next(iter(r))
            check(f"ToChar/FromChar({t})", fromchar, [c], t,
                  f"FromChar(ToChar({t})) differs")
            rep.ob(f"ToChar-injective({t})", c not in chars,
                   f"{tochar.file}:{tochar.line}: ToChar gives the same "
                   f"character for {chars.get(c)} and {t}")
            chars[c] = t
    for name, want in (("IsFileObject", {F_, X_}),
                       ("IsExecutableObject", {X_}), ("IsTreeObject", {T_}),
                       ("IsSymlinkObject", {S_}),
                       ("IsBlobObject", {F_, X_, S_}),
                       ("IsNonSpecialObject", {F_, X_, T_})):
        g = L.one(fx, name)
        for t in range(4):
            check(f"{name}({t})", g, [t], int(t in want),
                  f"{name} misclassifies object type {t}")
    # git modes
    m2t = L.one(fx, "GitFileModeToObjectType")
    special = L.one(fx, "GitFileModeIsNonSpecial")
    perm = L.one(fx, "ObjectTypeToPerm")
    for m, t in GIT.items():
        check(f"mode2type({m:o})", m2t, [m], t,
              f"git mode {m:o} is object type {t}")
        check(f"nonspecial({m:o})", special, [m], int(t != S_),
              f"git mode {m:o} classified wrongly")
        r = res(perm, [t])
        if r is not None:
            s = next(iter(r))
            rep.ob(f"type2perm({t})",
                   len(r) == 1 and isinstance(s, str) and s == f"{m:o}",
                   f"{perm.file}:{perm.line}: object type {t} is written to "
                   f"git trees as {s!r}, git's canonical mode is {m:o}")
    for m in OTHER_MODES:
        check(f"mode2type({m:o})", m2t, [m], None,
              f"unsupported git mode {m:o} accepted")
    for g in fx.named("GitTypeToObjectType"):
        for gt, want in ((3, F_), (2, T_), (1, None), (4, None)):
            check(f"gittype2type({gt})@{g.file}", g, [gt], want,
                  f"git object type {gt}")
    # pragma names
    a = L.var_table(L.var(fx, "kPragmaSpecialMap"))
    b = L.var_table(L.var(fx, "kPragmaSpecialInverseMap"))
    if a and b:
        for k, v in a.items():
            rep.ob(f"pragma({k})", b.get(v) == k,
                   f"kPragmaSpecialInverseMap[{v}] is {b.get(v)!r}, but "
                   f"kPragmaSpecialMap[{k!r}] is {v}")
        rep.ob("pragma-size", len(a) == len(b) == len(
            L.enum(fx, "PragmaSpecial")["cs"]),
            "pragma tables do not cover PragmaSpecial")
    # log levels: distinct names
    g = L.one(fx, "LogLevelToString")
    names = [res(g, [v]) for _, v in L.enum(fx, "LogLevel")["cs"]]
    rep.ob("loglevel-names", len({next(iter(n)) for n in names if n})
           == len([n for n in names if n]),
           f"{g.file}:{g.line}: two log levels share a name")
    archives(fx, rep)
    storage(fx, rep)
    for u in unknown:
        rep.note("not decided (not a constant): " + u)
    rep.count("table rows evaluated", rep.obs, 60)
    rep.count("rows undecided", len(unknown), 0)


def archives(fx, rep):
    """What a format writes is what it reads."""
    rd = L.one(fx, "ArchiveOps::EnableReadFormats")
    wr = L.one(fx, "ArchiveOps::EnableWriteFormats")

    def rec(eng, f, e, st):
        n = e.get("fn", "")
        if e["op"] == "call" and n.startswith("archive_") and \
                "error" not in n:
            return n
        return None

    def success(g, v):
        return [o.st.ts for o in L.evaluate(fx, g, [None, v], rec)
                if o.how == "ret" and o.val.s & E.ZERO]
    fmt = {"archive_write_set_format_zip": "zip",
           "archive_write_set_format_7zip": "7zip",
           "archive_write_set_format_pax_restricted": "tar",
           "archive_write_set_format_pax": "tar",
           "archive_write_set_format_gnutar": "tar",
           "archive_write_set_format_ustar": "tar",
           "archive_read_support_format_zip": "zip",
           "archive_read_support_format_7zip": "7zip",
           "archive_read_support_format_tar": "tar"}

    def norm(ts):
        out = set()
        for x in ts:
            if x in fmt:
                out.add("format " + fmt[x])
            elif "_filter_" in x:
                out.add("filter " + x.rsplit("_", 1)[-1])
            else:
                out.add(x)
        return frozenset(out)
    spec = {"Zip": {"format zip"}, "_7Zip": {"format 7zip"},
            "Tar": {"format tar"},
            "TarGz": {"format tar", "filter gzip"},
            "TarBz2": {"format tar", "filter bzip2"},
            "TarXz": {"format tar", "filter xz"},
            "TarLz": {"format tar", "filter lzip"},
            "TarLzma": {"format tar", "filter lzma"}}
    n = 0
    for name, v in L.enum(fx, "ArchiveType")["cs"]:
        for g, what in ((rd, "read"), (wr, "written")):
            got = {norm(ts) for ts in success(g, v)}
            if name in spec:
                n += 1
                rep.ob(f"archive-{what}-{name}",
                       got == {frozenset(spec[name])},
                       f"{g.file}:{g.line}: archive type {name} is {what} "
                       f"with {sorted(map(sorted, got))}, expected "
                       f"{sorted(spec[name])}",
                       f"{name} {what}: {sorted(map(sorted, got))}")
        if name.endswith("Auto"):
            need = {"ZipAuto": {"format zip", "format 7zip"},
                    "TarAuto": {"format tar", "filter all"}}[name]
            got = {norm(ts) for ts in success(rd, v)}
            rep.ob(f"archive-read-{name}", got == {frozenset(need)},
                   f"{rd.file}:{rd.line}: {name} reads {got}")
            rep.ob(f"archive-written-{name}", not success(wr, v),
                   f"{wr.file}:{wr.line}: {name} must not be writable")
    rep.count("archive types", n, 12)


def storage(fx, rep):
    """Directories of the storage kinds, and which store serves which type."""
    g = L.one(fx, "StorageConfig::CreateGenerationConfig")
    L.enum_is(fx, "HashFunction::Type", ["GitSHA1", "PlainSHA256"])

    def rec(eng, f, e, st):
        if e["op"] == "list" and e.get("fs") and "cas_f" in e["fs"]:
            return tuple((n, eng.val(f, a, st).c)
                         for n, a in zip(e["fs"], e["a"]))
        return None
    layout = {}
    for h in (0, 1):
        for o in L.evaluate(fx, g, [None], rec,
                            {"this.hash_function.type_": E.const(h)}):
            for ev in o.st.ts:
                layout[h] = dict(ev)
    if len(layout) == 2 and all(
            isinstance(v, str) for d in layout.values()
            for k, v in d.items() if k != "storage_config"):
        n, c = layout[0], layout[1]
        kinds = ("cas_f", "cas_x", "cas_t", "cas_large_f", "cas_large_t",
                 "action_cache", "target_cache")
        for i, a in enumerate(kinds):
            for b in kinds[i + 1:]:
                rep.ob(f"layout-native-{a}-{b}", n[a] != n[b],
                       f"{g.file}:{g.line}: {a} and {b} share the directory "
                       f"{n[a]} in native mode")
                same = {a, b} in ({"cas_f", "cas_t"},
                                  {"cas_large_f", "cas_large_t"})
                rep.ob(f"layout-compatible-{a}-{b}",
                       (c[a] == c[b]) == same,
                       f"{g.file}:{g.line}: {a} is {c[a]} and {b} is {c[b]} "
                       "in compatible mode")
        for a in kinds:
            for b in kinds:
                rep.ob(f"layout-modes-{a}-{b}", n[a] != c[b],
                       f"{g.file}:{g.line}: native {a} and compatible {b} "
                       f"share the directory {n[a]}")
        rep.samples.append(f"native layout {n}")
    else:
        rep.note("storage layout not decided")
    # members of the local CAS and their directories
    n = 0
    want = {"cas_file_": "cas_f", "cas_exec_": "cas_x", "cas_tree_": "cas_t"}
    types = {"cas_file_": "ObjectType::File", "cas_exec_":
             "ObjectType::Executable", "cas_tree_": "ObjectType::Tree"}
    for c in fx.named("LocalCAS::LocalCAS"):
        for e in c.elems():
            if e["op"] != "init" or not e.get("a"):
                continue
            m = (e.get("m") or "").rsplit("::", 1)[-1]
            if m in want:
                used = L.members_in(c, e["a"][0], "GenerationConfig::") - {"storage_config"}
                if used:
                    n += 1
                    rep.ob(f"store-dir-{m}", used == {want[m]},
                           f"{c.file}:{e.get('l')}: {m} is opened in "
                           f"{sorted(used)}, expected {want[m]}")
    rep.count("store members", n, 3)
    for k, r in fx.records.items():
        if k.startswith("LocalCAS<"):
            for fld in r["fields"]:
                if fld["n"] in types:
                    rep.ob(f"store-type-{fld['n']}-{k}",
                           types[fld["n"]] in fld["ty"],
                           f"{fld['n']} has type {fld['ty']}")

    def touched(g, args):
        def rec(eng, f, e, st):
            if e["op"] == "call" and e.get("o") is not None and f is g:
                p = eng.path(f, e["o"], st)
                if p and p.startswith("this.cas_"):
                    return p[5:]
            return None
        return {x for o in L.evaluate(fx, g, args, rec) for x in o.st.ts}
    for g in fx.named("LocalCAS::StorageRoot"):
        for t in range(4):
            for large in (0, 1):
                if large:
                    w = "cas_tree_large_" if t == T_ else "cas_file_large_"
                else:
                    w = {T_: "cas_tree_", X_: "cas_exec_"}.get(t, "cas_file_")
                r = touched(g, [t, large])
                rep.ob(f"StorageRoot({t},{large})", r == {w},
                       f"{g.file}:{g.line}: storage root of type {t}, "
                       f"large={large} comes from {sorted(r)}, not {w}")
    n = 0
    for q in ("LocalCAS::StoreBlob", "LocalCAS::BlobPathNoSync"):
        for g in fx.named(q):
            for x in (0, 1):
                r = touched(g, [None, x])
                w = "cas_exec_" if x else "cas_file_"
                n += 1
                rep.ob(f"{q}({x})", r == {w},
                       f"{g.file}:{g.line}: {q} with executable={x} uses "
                       f"{sorted(r)}, not {w}")
    for q in ("LocalCAS::StoreTree", "LocalCAS::TreePath"):
        for g in fx.named(q):
            r = touched(g, [None])
            n += 1
            rep.ob(q, r == {"cas_tree_"},
                   f"{g.file}:{g.line}: {q} uses {sorted(r)}")
    rep.count("store accessors", n, 6)
    # executable bit of the files a store writes
    for g in fx.named("FileSystemManager::WriteFileAs"):
        kt = L.targ(g.key, "ObjectType")
        if kt is None:
            continue

        def rec2(eng, f, e, st):
            if e["op"] == "call" and e.get("fn", "").startswith(
                    "FileSystemManager::SetFilePermissions") and \
                    len(e["a"]) == 2:
                return ("x", eng.val(f, e["a"][1], st).c)
            return None
        for o in L.evaluate(fx, g, [None, None, None], rec2):
            if o.how == "ret" and o.val.s & (E.POS | E.NEG):
                xs = {x[1] for x in o.st.ts}
                rep.ob(f"WriteFileAs-x({kt})", xs == {int(kt == X_)},
                       f"{g.file}:{g.line}: success path of WriteFileAs for "
                       f"object type {kt} sets executable to {sorted(map(str, xs))}")
