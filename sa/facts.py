"""Obtains the facts of /repo's current source: builds the extractor if need
be, runs it on every translation unit (in parallel, in the configuration the
repository's build uses), and gives access to functions, records, enums and
variables. Facts are cached under .build/cache by the content of the unit and
of every file it includes, of the flags and of the extractor."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
UNITS_DIR = os.path.join(VERIF, "sa/units")
RES = "/usr/lib/llvm-18/lib/clang/18"
MACRO = "BOOTSTRAP_BUILD_TOOL"

BOOT_SKIP_DIRS = {
    "test", "execution_api", "other_tools", "archive", "computed_roots",
    "tree_structure", "tree_operations"
}
# need generated protobuf/gRPC code in either configuration
SKIP_SRC = [
    "src/buildtool/computed_roots/analyse_and_build.cpp",
    "src/buildtool/computed_roots/evaluate.cpp",
    "src/buildtool/computed_roots/inquire_serve.cpp",
    "src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp",
    "src/buildtool/execution_api/common/common_api.cpp",
    "src/buildtool/execution_api/common/message_limits.cpp",
    "src/buildtool/execution_api/common/tree_reader_utils.cpp",
    "src/buildtool/execution_api/execution_service/",
    "src/buildtool/execution_api/git/",
    "src/buildtool/execution_api/local/",
    "src/buildtool/execution_api/remote/bazel/",
    "src/buildtool/execution_api/utils/rehash_utils.cpp",
    "src/buildtool/execution_engine/tree_operations/",
    "src/other_tools/just_mr/fetch.cpp",
    "src/other_tools/just_mr/setup.cpp",
    "src/other_tools/ops_maps/content_cas_map.cpp",
    "src/other_tools/ops_maps/git_tree_fetch_map.cpp",
    "src/other_tools/root_maps/",
]
FORCE_BOOT = ["src/buildtool/serve_api/"]
INC = re.compile(r'^\s*#\s*include\s*"((?:src|test)/[^"]+)"', re.M)


class AnalysisError(Exception):
    """The analysis itself is broken (no verdict)."""


def _skipped(path, rules):
    return any(path == r or (r.endswith("/") and path.startswith(r))
               for r in rules)


def plain(q):
    """Qualified name without anonymous namespaces and template arguments."""
    q = q.replace("(anonymous namespace)::", "")
    if "<" not in q:
        return q
    i = q.find("::operator")
    if i >= 0 or q.startswith("operator"):
        return plain(q[:i]) + q[i:] if i > 0 else q
    out, d = [], 0
    for c in q:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


class Units:
    """The translation units of the repository and their configurations."""

    def __init__(self):
        self.text_, self.incs = {}, {}
        self.all = []
        for root, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".cpp"):
                    self.all.append(
                        os.path.relpath(os.path.join(root, f), REPO))

    def text(self, p):
        if p not in self.text_:
            try:
                self.text_[p] = open(os.path.join(REPO, p), encoding="utf-8",
                                     errors="replace").read()
            except OSError:
                self.text_[p] = ""
        return self.text_[p]

    def closure(self, path):
        todo, seen = [path], set()
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            if p not in self.incs:
                self.incs[p] = INC.findall(self.text(p))
            todo.extend(self.incs[p])
        return seen

    def boot(self, path):
        return _skipped(path, FORCE_BOOT) or any(
            MACRO in self.text(h) for h in self.closure(path) if h != path)

    def list(self):
        """[(file, boot?)], as in the repository's build here."""
        out = []
        for f in self.all:
            if not _skipped(f, SKIP_SRC):
                b = self.boot(f)
                out.append((f, b))
                if not b and not BOOT_SKIP_DIRS & set(f.split("/")[:-1]) \
                        and MACRO in self.text(f):
                    out.append((f, True))
            elif not BOOT_SKIP_DIRS & set(f.split("/")[:-1]):
                out.append((f, True))
        for f in sorted(os.listdir(UNITS_DIR)):
            if f.endswith(("_boot.cpp", "_full.cpp")):
                out.append((os.path.join(UNITS_DIR, f),
                            f.endswith("_boot.cpp")))
        return out


def tool():
    """Path of the extractor, built if necessary."""
    src = os.path.join(VERIF, "tool/extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "extract-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run([os.path.join(VERIF, "tool/build.sh"), exe],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError("extractor does not build:\n" + r.stderr)
    return exe, h


_fh = {}


def _file_hash(p):
    if p not in _fh:
        try:
            _fh[p] = hashlib.sha256(open(os.path.join(REPO, p),
                                         "rb").read()).hexdigest()
        except OSError:
            _fh[p] = "-"
    return _fh[p]


def _extract(args):
    exe, th, f, flags = args
    cdir = os.path.join(BUILD, "cache")
    base = hashlib.sha256(
        json.dumps([th, f, flags, REPO]).encode()).hexdigest()[:24]
    meta = os.path.join(cdir, base + ".m")
    try:
        m = json.load(open(meta))
        if all(_file_hash(d) == h for d, h in m["deps"].items()) and \
                os.path.exists(os.path.join(cdir, m["out"])):
            return os.path.join(cdir, m["out"]), None, True
    except (OSError, ValueError, KeyError):
        pass
    out = os.path.join(cdir, base + f".{os.getpid()}.tmp")
    cmd = [exe, out, REPO + "/", REPO + "/src/", os.path.join(REPO, f), "--",
           "-std=c++20", "-w", "-ferror-limit=5", "-I" + REPO,
           "-resource-dir", RES] + flags
    r = subprocess.run(cmd, capture_output=True, text=True, cwd="/")
    if r.returncode != 0 or not os.path.exists(out):
        return None, r.stderr[-3000:], False
    deps = []
    with open(out, encoding="utf-8") as fd:
        for line in fd:
            if line[0] == "D":
                deps = json.loads(line.split("\t", 2)[2])
                break
    final = base + ".jl"
    os.replace(out, os.path.join(cdir, final))
    with open(meta + ".tmp%d" % os.getpid(), "w") as fd:
        json.dump({"deps": {d: _file_hash(d) for d in deps}, "out": final}, fd)
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    return os.path.join(cdir, final), None, False


class Elem:
    __slots__ = ("d", "blk", "ix")

    def __init__(self, d, blk, ix):
        self.d, self.blk, self.ix = d, blk, ix


class Func:
    """A function definition with its control-flow graph."""

    def __init__(self, d, types, boot):
        self.d = d
        self.types = types
        self.boot = boot
        self.key = d["u"]
        self.name = d["n"]
        self.q = d["q"]
        self.file = d["f"]
        self.line = d["l"]
        self.end = d["le"]
        self.kind = d["kind"]
        self.cls = d.get("cls")
        self.par = d.get("par")
        self.noexcept = bool(d.get("ne"))
        self.params = [(p[0], p[1], types[p[2]] if p[2] >= 0 else "")
                       for p in d["ps"]]
        self.ret = types[d["ret"]] if d["ret"] >= 0 else ""
        self.blocks = {b["id"]: b for b in d.get("b", [])}
        self.entry = d.get("en")
        self.exit = d.get("ex")
        self.tries = d.get("tries", [])
        self.el = {}
        for b in d.get("b", []):
            for i, e in enumerate(b["e"]):
                self.el[e["i"]] = e
                e["B"] = b["id"]
        self._preds = None
        self._prune()

    def _prune(self):
        """Drops operands that a constant left operand makes unreachable."""
        dead = set()
        for e in self.el.values():
            dropped = None
            if e["op"] == "bin" and e["k"] in ("&&", "||"):
                v = self.el.get(e["a"][0], {}).get("val")
                if v is not None and bool(v) == (e["k"] == "||"):
                    dropped = e["a"][1]
            elif e["op"] == "sel" and len(e["a"]) == 3:
                v = self.el.get(e["a"][0], {}).get("val")
                if v is not None:
                    dropped = e["a"][2 if v else 1]
            if dropped is None:
                continue
            todo = [dropped]
            while todo:
                i = todo.pop()
                x = self.el.get(i)
                if x is None or i in dead or x["B"] != e["B"]:
                    continue
                dead.add(i)
                todo.extend(x.get("a", ()))
                todo.extend(x[k] for k in ("o", "b", "cal")
                            if x.get(k) is not None)
        if dead:
            for b in self.blocks.values():
                b["e"] = [e for e in b["e"] if e["i"] not in dead]
            for i in dead:
                del self.el[i]

    def t(self, e):
        """Type of an element (or of a declaration record)."""
        i = e.get("t", -1)
        return self.types[i] if i is not None and i >= 0 else ""

    @property
    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.blocks}
            for b in self.blocks.values():
                for s in b["s"]:
                    if s in p:
                        p[s].append(b["id"])
            self._preds = p
        return self._preds

    def elems(self):
        for b in self.d.get("b", []):
            yield from b["e"]

    def loc(self, e=None):
        return f"{self.file}:{(e or {}).get('l') or self.line}"

    def short(self):
        if self.kind == "lambda":
            return f"lambda at {self.file}:{self.line}"
        return self.q

    def __repr__(self):
        return f"<{self.short()} {self.file}:{self.line}>"


class Facts:

    def __init__(self, files=None, verbose=False, jobs=None):
        """files: predicate on the unit's path, or None for all."""
        t0 = time.time()
        exe, th = tool()
        os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
        units = Units().list()
        todo = [(exe, th, f, ["-D" + MACRO] if b else [])
                for f, b in units if files is None or files(f)]
        if not todo:
            raise AnalysisError("no translation unit selected")
        # slow units first
        todo.sort(key=lambda a: -os.path.getsize(os.path.join(REPO, a[2])))
        with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
            res = list(ex.map(_extract, todo))
        bad = [(a[2], e) for a, (o, e, _) in zip(todo, res) if o is None]
        if bad:
            raise AnalysisError("\n".join(f"{f}: {e}" for f, e in bad))
        self.units = [(a[2], bool(a[3])) for a in todo]
        self.cached = sum(1 for r in res if r[2])
        self._nr = {}
        self._raw = {}      # key -> (line, types, boot)
        self.records, self.enums, self.vars = {}, {}, {}
        self._funcs = {}
        order = sorted(zip(todo, res), key=lambda ar: (bool(ar[0][3]), ar[0][2]))
        for a, (o, _, _) in order:
            boot = bool(a[3])
            types = None
            for line in open(o, encoding="utf-8"):
                k, key, js = line.split("\t", 2)
                if k == "T":
                    types = json.loads(js)
                elif k == "F":
                    old = self._raw.get(key)
                    if old is None:
                        self._raw[key] = (js, types, boot)
                    elif old[2] and not boot:
                        self._raw[key] = (js, types, boot)
                    elif len(js) > 2 * len(old[0]) and boot == old[2]:
                        self._raw[key] = (js, types, boot)
                elif k == "R":
                    if key not in self.records:
                        d = json.loads(js)
                        d["types"] = types
                        for f in d["fields"]:
                            f["ty"] = types[f["t"]]
                        self.records[key] = d
                elif k == "E":
                    if key not in self.enums:
                        self.enums[key] = json.loads(js)
                elif k == "V":
                    if key not in self.vars:
                        d = json.loads(js)
                        d["types"] = types
                        d["boot"] = boot
                        self.vars[key] = d
        self._by_q = None
        self._lam = None
        self.extract_s = time.time() - t0

    def func(self, key):
        f = self._funcs.get(key)
        if f is None:
            raw = self._raw.get(key)
            if raw is None:
                return None
            f = Func(json.loads(raw[0]), raw[1], raw[2])
            self._funcs[key] = f
        return f

    def has(self, key):
        return key in self._raw

    def noreturn(self, key):
        """Whether a function of the repository never returns normally."""
        r = self._nr.get(key)
        if r is None:
            self._nr[key] = False       # recursion
            f = self.func(key)
            r = False
            if f is not None and f.blocks and '"nr":1' in self._raw[key][0]:
                todo, seen = [f.entry], set()
                while todo:
                    b = todo.pop()
                    if b in seen or b not in f.blocks:
                        continue
                    seen.add(b)
                    if not f.blocks[b].get("nr"):
                        todo.extend(f.blocks[b]["s"])
                r = f.exit not in seen
            self._nr[key] = r
        return r

    def keys(self):
        return self._raw.keys()

    def funcs(self, pred=None):
        for k in list(self._raw):
            f = self.func(k)
            if pred is None or pred(f):
                yield f

    def grep(self, pat):
        """Functions whose raw facts contain the string (fast prefilter)."""
        for k, raw in self._raw.items():
            if pat in raw[0]:
                yield self.func(k)

    def named(self, q):
        """Functions of that qualified name (namespaces without a name and
        template arguments of classes left out)."""
        if self._by_q is None:
            self._by_q = {}
            for k, raw in self._raw.items():
                m = re.search(r'"q":"((?:[^"\\]|\\.)*)"[^{}\[\]]*\}?\s*$',
                              raw[0])
                name = json.loads(raw[0])["q"] if m is None else json.loads(
                    '"' + m.group(1) + '"')
                self._by_q.setdefault(plain(name), []).append(k)
        return [self.func(k) for k in self._by_q.get(q, [])]

    def lambdas_of(self, f):
        if self._lam is None:
            self._lam = {}
            for g in self.grep('"kind":"lambda"'):
                if g.kind == "lambda":
                    self._lam.setdefault(g.par, []).append(g)
        return self._lam.get(f.key, [])


if __name__ == "__main__":
    t = time.time()
    fx = Facts()
    print(len(fx.units), "units", len(fx._raw), "functions",
          len(fx.records), "records", f"{time.time()-t:.1f}s", fx.cached)
