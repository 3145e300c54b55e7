"""Every outcome of every function under a failure of one of its fallible
operations: each call of a fallible primitive (system call, file system
operation, git, archive, hash and transfer library call, output stream) is
forked into success and failure on the extracted control-flow graph, and the
outcomes under failure are classified by the value returned. Functions that
signal the failure become fallible operations of their callers (callees first,
to a fixed point)."""
import re

import engine as E
import facts as F
import ioerr as I

LEVEL = "other"
ASSUMPTIONS = [
    "the primitives fail as documented (-1, nonzero, null, exception, "
    "error_code, stream state)",
    "one failure per call; later operations may fail or succeed",
    "units that need generated protocol code are not analysed",
]

# Failures a caller may legitimately recover from or ignore:
# (file, callee) -> reason
EXCEPT = {
    ("file_storage.hpp", "FileSystemManager::CreateFileHardlinkAs"):
        "falls back to copying",
    ("file_root.hpp", "FileSystemManager::Type"):
        "existence query; absent and unreadable are the same",
    ("target_utils.cpp", "GitRepo::IsTreeInRepo"): "tries the next repository",
    ("target_utils.cpp", "lambda"): "roots that are not git trees stay",
    ("target_utils.cpp", "GitRepo::GetObjectByPathFromTree"):
        "absence of the file is a regular answer",
    ("git_repo.cpp", "git_repository_open_ext"):
        "creates the repository if it cannot be opened",
    ("git_repo.cpp", "git_message_prettify"):
        "the commit fails on the null message it leaves",
    ("rc.cpp", "stream <<"): "dump of debug information",
    ("main.cpp", "stream <<"): "dump of debug information",
    ("main.cpp", "FileRoot::Exists"): "tries the next candidate",
    ("setup_utils.cpp", "Auth::TLS::Builder::Build"):
        "outer optional tells that nothing is configured",
    ("archive_ops.cpp", "archive_read_disk_set_standard_lookup"):
        "names of users, not used",
    ("archive_ops.cpp", "archive_write_disk_set_standard_lookup"):
        "names of users, not used",
    ("archive_ops.cpp", "archive_write_disk_set_options"):
        "cannot fail with the flags given",
    ("archive_ops.cpp", "archive_read_disk_descend"):
        "fails for entries that are no directories",
    ("curl_easy_handle.cpp", "tmpfile"): "debug output of the transfer",
    ("git_repo_remote.cpp", "FileSystemManager::ReadFile"):
        "error text of the git command",
    ("tree_structure_cache.cpp", "TreeStructureCache::Get"):
        "a cache miss",
    ("tree_structure_utils.cpp", "TreeStructureCache::Get"):
        "a cache miss",
    ("target_map.cpp", "FileRoot::DirectoryEntries::AsKnownTree"):
        "a tree that is not known yet is built from its entries",
    ("resolve_symlinks_map.cpp", "GitRepo::GetObjectByPathFromTree"):
        "absence of the target is a regular answer",
    ("archive_fetch_map.cpp", "LocalCAS::BlobPath"):
        "a blob that is not stored is fetched",
    ("tmp_dir.cpp", "rmdir"): "cleanup",
    ("tmp_dir.cpp", "FileSystemManager::RemoveDirectory"): "cleanup",
    ("archive_ops.cpp", "archive_write_close"):
        "closer on paths that failed already",
    ("fs_utils.cpp", "LocalCAS::StoreBlob"):
        "copy for later use; the caller has the content",
}
# fallible operations that report a failure by a value of a string optional
INVERTED = re.compile(r"archive_ops")


def inverted(g):
    return INVERTED.search(g.file) is not None and g.ret.startswith(
        "std::optional<std::basic_string")


def base(name):
    n = name if name.startswith("stream") else F.plain(name)
    return "lambda" if n.startswith("lambda") else n


def excepted(f, name):
    return (f.file.rsplit("/", 1)[-1], base(name)) in EXCEPT


def used_elements(g):
    used = set()
    for e in g.elems():
        if e["op"] == "cast" and e.get("k") == "ToVoid":
            continue
        if e["op"] == "call" and e.get("opk") == "=" and e.get("o") is not \
                None and g.el.get(e["o"], {}).get("v", "").endswith("ignore"):
            continue
        used.update(E.Engine.children(e))
    for b in g.blocks.values():
        if b.get("t"):
            used.add(b["t"].get("c"))
    return used


def run(fx, rep):
    rep.rule("no outcome of a function after a failed operation signals "
             "success (true, an engaged optional or expected, a non-null "
             "pointer, exit code zero), unless the object is found to exist "
             "nevertheless or the operation is a listed exception")
    rep.rule("the value of a fallible operation is looked at in functions "
             "that return nothing")
    rep.rule("a consumer of an asynchronous map does not set a value after a "
             "failed operation")
    a = I.Analysis(fx, inverted).run()
    prim = sites = 0
    for k in a.todo:
        g = fx.func(k)
        for e in g.elems():
            if e["op"] == "call" and I.primitive(g, e):
                prim += 1
        bad, seen = {}, set()
        for o in a.results.get(k, ()):
            if o.st.ts is None:
                continue
            seen.add(o.st.ts)
            if o.how != "ret":
                continue
            r = a.failing(g, o)
            if a.rk[k] == "int" and r is None:
                continue
            if a.rk[k] is not None and r is not True:
                if a.rk[k] == "int" and g.q == "main" and len(o.st.ts) > 3:
                    continue
                bad.setdefault(o.st.ts, str(o.val))
        sites += len(seen)
        for ts in seen:
            ok = ts not in bad or excepted(g, ts[1])
            name = base(ts[1])
            rep.ob(f"{g.file}:{F.plain(g.short()) if g.kind != 'lambda' else 'lambda'}:{name}",
                   ok, f"{g.file}:{ts[2]}: {g.short()} may report success "
                   f"({bad.get(ts)}) although {ts[1]} failed",
                   f"{g.short()} reports a failure of {ts[1]} at "
                   f"{g.file}:{ts[2]}" if sites % 29 == 0 else None)
    rep.count("functions with a fallible operation", len(a.todo), 250)
    rep.count("calls of fallible primitives", prim, 150)
    rep.count("failures followed to every outcome", sites, 500)
    for (k, ts), line in a.set_after.items():
        g = fx.func(k)
        rep.ob(f"{g.file}:setter:{base(ts[1])}", excepted(g, ts[1]),
               f"{g.file}:{line}: a value is set although {ts[1]} failed at "
               f"line {ts[2]}")
    calls = 0
    for g in fx.funcs():
        if a.rk.get(g.key) is not None:
            continue            # covered by the outcomes
        cand = []
        for e in g.elems():
            if e["op"] != "call":
                continue
            p = I.primitive(g, e)
            if (p is not None and p[1] not in ("exc", "ec")) or any(
                    a.summary.get(t) for t in a.targets(g, e)):
                cand.append(e)
        if not cand:
            continue
        used = used_elements(g)
        for e in cand:
            calls += 1
            rep.ob(f"{g.file}:discarded:{base(e['fn'])}",
                   e["i"] in used or excepted(g, e["fn"]),
                   f"{g.loc(e)}: the result of {e['fn']} is discarded in "
                   f"{g.short()}")
    rep.count("calls of fallible operations in functions without a result",
              calls, 20)
    if a.engines:
        rep.note("paths joined in: " + ", ".join(
            fx.func(k).short() for k in sorted(a.engines)))
