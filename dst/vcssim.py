"""vcssim: the package imported from simulated deployments under version-control tool faults.

A plan is one repository history (commits, merges, tags, branches, working-tree edits) and a list of imports of the
package ("visits") from deployments of it, each with an inherited environment and a fault per tool invocation.  The
package, its version code and the git executable are real; spawning goes through a seam that answers from memory or
injects a fault.  The oracle knows the history from the plan, not from git.
"""
import errno
import hashlib
import inspect
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import re
import shutil
import subprocess
import sys
import tarfile
import tempfile
from collections import Counter

from . import lib, prng
from .callgen import chunks

REAL = ["kalmankit package imported from the simulated deployment (sources of /repo's working tree)",
        "versioneer.py when a release is built", "git executable (answers memorised per state, arguments, settings)"]
STUB = ["process spawning (subprocess.Popen): faults and memorised answers", "users, deployments and their directories",
        "repository histories (generated, fixed dates)", "inherited environment"]

SKIP = {"__pycache__"}
_real_popen = subprocess.Popen
POPEN = inspect.signature(_real_popen)
_code = {}


# ------------------------------------------------------------------ sources and import
def package_files():
    out = {}
    for base, dirs, files in os.walk(lib.PKG):
        dirs[:] = sorted(d for d in dirs if d not in SKIP)
        for f in sorted(files):
            if not f.endswith((".pyc", ".so")):
                p = os.path.join(base, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, lib.REPO)] = fh.read()
    for f in (".gitattributes", "pyproject.toml", "setup.py", "versioneer.py"):
        p = os.path.join(lib.REPO, f)
        if os.path.isfile(p):
            with open(p, "rb") as fh:
                out[f] = fh.read()
    return out


class _Loader(importlib.abc.Loader):
    def __init__(self, path, at):
        self.path, self.at = path, at

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as fh:
            src = fh.read()
        key = (os.path.basename(self.path), hashlib.blake2b(src, digest_size=12).digest())
        key += (lib.OPTIMIZE[0],)
        code = _code.get(key)
        if code is None:
            if len(_code) > 400:
                _code.clear()
            code = _code[key] = compile(src, os.path.basename(self.path), "exec", dont_inherit=True, optimize=lib.OPTIMIZE[0])
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    """Imports kalmankit from a directory; `told` is the directory the modules believe to be in (None: frozen)."""

    def __init__(self, d, told):
        self.d, self.told = d, told

    def find_spec(self, name, path=None, target=None):
        if name != "kalmankit" and not name.startswith("kalmankit."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(self.d, *rel)
        pk = os.path.isfile(os.path.join(base, "__init__.py"))
        p = os.path.join(base, "__init__.py") if pk else base + ".py"
        if not os.path.isfile(p):
            return None
        at = None if self.told is None else os.path.join(self.told, os.path.relpath(p, self.d))
        spec = importlib.machinery.ModuleSpec(name, _Loader(p, at), origin=at, is_package=pk)
        if pk:
            spec.submodule_search_locations = [base]
        spec.has_location = at is not None
        spec.cached = None
        return spec


# ------------------------------------------------------------------ the spawning seam
class Spawner:
    """What subprocess.Popen does during one visit."""

    def __init__(self, world, faults, tools=("git",)):
        self.world = world
        self.tools = tools
        self.faults = faults
        self.n = 0
        self.trace = []
        self.fired = Counter()
        self.open = 0

    def fault(self, argv):
        for f in self.faults:
            if f.get("asks") is not None:
                if ASKS[f["asks"]](argv) and not (f["kind"] == "signature" and "--no-show-signature" in argv):
                    return f
            elif f.get("at") == self.n or ("from" in f and self.n >= f["from"] and (self.n - f["from"]) % f.get("every", 1) == 0):
                return f
        return None

    def popen(self, args, *rest, **kw):
        given = dict(POPEN.bind(args, *rest, **kw).arguments)     # what it does not take is a TypeError there, too
        given.pop("args")
        if sys.platform != "win32" and (given.get("startupinfo") is not None or given.get("creationflags", 0)):
            raise ValueError("startupinfo and creationflags are only supported on Windows platforms")
        return SimPopen(self, args, given)


def _only_date(argv):
    """Does it ask for dates and nothing else?"""
    fm = [a.split("=", 1)[1] for a in argv if a.startswith(("--format=", "--pretty="))]
    return len(fm) == 1 and re.fullmatch(r"(format:|tformat:)?%[ac][iIdDtsr]", fm[0]) is not None


ASKS = {"date": _only_date}


class SimPopen:
    def __init__(self, sp, args, kw):
        sp.n += 1
        self.args, self.pid, self.returncode = args, 4000 + sp.n, None
        self.kw = kw
        argv = [args] if isinstance(args, (str, bytes, os.PathLike)) else list(args)
        argv = [os.fsdecode(a) for a in argv]
        if kw.get("shell"):
            argv = argv[0].split()
        f = sp.fault(argv)
        kind = f["kind"] if f else None
        sp.trace.append((tuple(argv[1:3]), kind))
        if kind:
            sp.fired[kind] += 1
        if kind == "interrupted":
            raise KeyboardInterrupt("while the tool ran")
        if kind == "absent" or os.path.basename(argv[0]) not in sp.tools:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        if kind in OSERR:
            raise OSError(OSERR[kind], os.strerror(OSERR[kind]), argv[0])
        cwd = kw.get("cwd")
        if cwd is not None and not os.path.isdir(cwd):
            raise (NotADirectoryError(errno.ENOTDIR, "Not a directory", cwd) if ".zip" in str(cwd)
                   else FileNotFoundError(errno.ENOENT, "No such file or directory", cwd))
        env = kw.get("env")
        at = cwd or where_am_i()
        if at is None:
            out, err, rc = b"", b"fatal: Unable to read current working directory: No such file or directory\n", 128
        else:
            out, err, rc = sp.world.git(argv[1:], at, dict(os.environ if env is None else env))
        self._busy = SLOW if kind == "slow" else 0.0
        if kind and kind != "slow":
            out, err, rc = damage(f, out, err, rc)
        self._rc = rc
        text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors")
        mk = (lambda b: io.TextIOWrapper(io.BytesIO(b), encoding=kw.get("encoding") or "utf-8",
                                         errors=kw.get("errors") or "strict")) if text else io.BytesIO
        merged = kw.get("stderr") == subprocess.STDOUT
        self.stdin = io.BytesIO() if kw.get("stdin") == subprocess.PIPE else None
        self.stdout = mk(out + (err if merged else b"")) if kw.get("stdout") == subprocess.PIPE else None
        self.stderr = mk(err) if kw.get("stderr") == subprocess.PIPE else None

    def _last(self, timeout):
        if self._busy and timeout is not None:
            if timeout < self._busy:
                self._busy -= max(timeout, 0)
                raise subprocess.TimeoutExpired(self.args, timeout)
        self._busy = 0.0

    def communicate(self, input=None, timeout=None):
        self._last(timeout)
        o = self.stdout.read() if self.stdout else None
        e = self.stderr.read() if self.stderr else None
        self.returncode = self._rc
        return o, e

    def wait(self, timeout=None):
        self._last(timeout)
        self.returncode = self._rc
        return self._rc

    def poll(self):
        self.returncode = self._rc
        return self._rc

    def kill(self):
        if self._busy:
            self._busy, self._rc = 0.0, -9
            for s in (self.stdout, self.stderr):
                if s:
                    s.read()                 # what it had not written yet

    terminate = kill

    def send_signal(self, s):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


SLOW = 45.0       # simulated seconds a stalled tool takes

OSERR = {"not-executable": errno.EACCES, "no-memory": errno.ENOMEM, "no-processes": errno.EAGAIN, "not-permitted": errno.EPERM,
         "bad-format": errno.ENOEXEC, "too-many-files": errno.EMFILE, "io-error": errno.EIO}

GARBAGE = [b"\xff\xfe\x00\x81 not text", b"error: cannot read\n", b"\n\n", b"   ", b"- - -\n-- ", b"g-g-g",
           b"\xc3\x28\xa0\xa1", b"usage: git [-v] <command>\n", b"\x00\x00\x00", "café-ü".encode("latin-1")]


def damage(f, out, err, rc):
    k = f["kind"]
    if k == "fails":
        return b"", b"fatal: simulated\n", f.get("arg", 128) or 1
    if k == "fails-noisily":
        return out, b"fatal: simulated\n", f.get("arg", 1) or 1
    if k == "killed":
        return out[:len(out) * (f.get("arg", 50) % 100) // 100], b"", -9
    if k == "killed-undecodable":
        return b"caf\xe9 \xff", b"", -15
    if k == "empty":
        return b"", b"", 0
    if k == "garbled":
        return GARBAGE[f.get("arg", 0) % len(GARBAGE)], b"warning: \xff\n", 0
    if k == "signature":         # git with log.showSignature says this first, on standard output
        return b"gpg: Signature made Mon Jan  6 10:00:00 2020 UTC\ngpg: Good signature from \"C <c@x>\"\n" + out, err, rc
    raise ValueError(k)


def where_am_i():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return None                  # the working directory has been removed


def damaged(v):
    """Did the tool answer, and claim success, with something else?"""
    return any(f["kind"] == "garbled" for f in v.get("faults", []))


KINDS = ["absent", "fails", "fails", "fails-noisily", "killed", "killed-undecodable", "empty", "empty", "garbled", "garbled", "slow", "slow"] + list(OSERR)


class Windows:
    """sys.platform and what subprocess offers there; the executables found are those of the plan."""

    class STARTUPINFO:
        def __init__(self, **kw):
            self.dwFlags, self.wShowWindow, self.lpAttributeList = 0, 0, {}
            self.hStdInput = self.hStdOutput = self.hStdError = None
            self.__dict__.update(kw)

    EXTRA = {"STARTUPINFO": STARTUPINFO, "STARTF_USESHOWWINDOW": 1, "STARTF_USESTDHANDLES": 256, "SW_HIDE": 0,
             "CREATE_NO_WINDOW": 0x08000000}

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.platform = sys.platform
        if self.on:
            sys.platform = "win32"
            for k, x in self.EXTRA.items():
                setattr(subprocess, k, x)

    def __exit__(self, *a):
        sys.platform = self.platform
        if self.on:
            for k in self.EXTRA:
                delattr(subprocess, k)


# ------------------------------------------------------------------ histories
class History:
    """Model of the repository: what any user who typed these operations knows about it."""

    def __init__(self, ops):
        self.commits = []        # (parents, time, tz)
        self.branches = {}
        self.tags = {}           # name -> (commit, annotated)
        self.stream = []
        for op in ops:
            getattr(self, "op_" + op[0])(*op[1:])

    def _commit(self, parents):
        i = len(self.commits)
        tz = ("+0000", "+0530", "-0800", "+1345", "-0330")[i * 7 % 5]
        self.commits.append((parents, 1600000000 + i * 90061, tz))
        return i

    def op_commit(self, br):
        p = [self.branches[br]] if br in self.branches else []
        if not p and self.branches:
            return               # only one root, and branches start somewhere
        self.branches[br] = self._commit(p)

    def op_branch(self, new, at):
        if self.commits and new not in self.branches:
            self.branches[new] = at % len(self.commits)

    def op_merge(self, into, other):
        a, b = self.branches.get(into), self.branches.get(other)
        if a is None or b is None or b in self.ancestors(a) or a in self.ancestors(b):
            return
        self.branches[into] = self._commit([a, b])

    def op_tag(self, name, kind, at):
        if self.commits:
            self.tags[name] = (at % len(self.commits), kind == "annot")

    def ancestors(self, i):
        seen, todo = set(), [i]
        while todo:
            c = todo.pop()
            if c not in seen:
                seen.add(c)
                todo.extend(self.commits[c][0])
        return seen

    def shallow(self, head, depth):
        """The history a clone of that depth has."""
        at = {head: 1}
        todo = [head]
        for c in todo:
            for p in self.commits[c][0]:
                if p not in at:
                    at[p] = at[c] + 1
                    todo.append(p)
        h = History([])
        h.commits = [([] if at.get(i, depth) >= depth else p, t, tz) for i, (p, t, tz) in enumerate(self.commits)]
        h.tags = self.tags
        return h

    def version_tags(self):
        return {t: c for t, (c, _) in self.tags.items() if re.match(r"v\d", t)}

    def nearest(self, head):
        """Acceptable (tag, distance) pairs: reachable version tags not hidden behind a later one on every path."""
        anc = self.ancestors(head)
        cand = {t: c for t, c in self.version_tags().items() if c in anc}
        out = []
        for t, c in cand.items():
            if not any(d != c and c in self.ancestors(d) for d in cand.values()):
                out.append((t, len(anc - self.ancestors(c))))
        return out

    def fast_import(self, files, main):
        """Stream that builds it."""
        b = io.BytesIO()
        w = lambda s: b.write(s if isinstance(s, bytes) else s.encode())
        data = lambda d: (w("data %d\n" % len(d)), w(d), w("\n"))
        for i, (parents, t, tz) in enumerate(self.commits):
            w("commit refs/import\nmark :%d\n" % (i + 1))
            w("author A <a@x> %d %s\n" % (t - 3600, "+0200"))
            w("committer C <c@x> %d %s\n" % (t, tz))
            data(b"commit %d" % i)
            if parents:
                w("from :%d\n" % (parents[0] + 1))
                for p in parents[1:]:
                    w("merge :%d\n" % (p + 1))
            else:
                w("deleteall\n")
                for path, content in files.items():
                    w("M 100644 inline %s\n" % path)
                    data(content)
            w("M 100644 inline NOTES\n")
            data(b"notes %d\n" % i)
            if not parents:
                w("reset refs/import\n")
        for br, c in self.branches.items():
            w("reset refs/heads/%s\nfrom :%d\n\n" % (br, c + 1))
        for t, (c, annot) in self.tags.items():
            if annot:
                w("tag %s\nfrom :%d\ntagger T <t@x> %d +0100\n" % (t, c + 1, self.commits[c][1] + 60))
                data(b"release " + t.encode())
            else:
                w("reset refs/tags/%s\nfrom :%d\n\n" % (t, c + 1))
        w("done\n")
        return b.getvalue()


# ------------------------------------------------------------------ the simulated machine
class World:
    def __init__(self, plan):
        self.plan = plan
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="vcssim-"))
        self.files = package_files()
        self.memo = {}
        self.calls = 0
        self.spawned = 0
        self.serial = 0
        self.h = History(plan["ops"])
        self.sha = []
        self.made = {}
        os.mkdir(self.path("home"))

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- git
    def base_env(self):
        return {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": self.path("home"), "GIT_CONFIG_GLOBAL": "/dev/null",
                "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C"}

    def run(self, *argv, cwd=None, input=None):
        p = _real_popen(["git", "-c", "core.fsync=none", "-c", "gc.auto=0", "-c", "core.compression=0", "-c", "fastimport.unpackLimit=1", "-c",
                          "core.looseCompression=0"] + list(argv), cwd=cwd or self.dir, env=self.base_env(), stdin=subprocess.PIPE,
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        o, e = p.communicate(input)
        self.spawned += 1
        if p.returncode:
            raise RuntimeError("harness: git %s: %s" % (argv, e))
        return o

    def git(self, argv, cwd, env):
        """What the real tool answers; memorised."""
        keep = {k: v for k, v in env.items() if k.startswith("GIT_") or k in ("LANG", "LANGUAGE")}
        key = (tuple(argv), cwd, tuple(sorted(keep.items())))
        self.calls += 1
        if key not in self.memo:
            p = _real_popen(["git"] + argv, cwd=cwd, env={**keep, **self.base_env()}, stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            o, e = p.communicate()
            self.spawned += 1
            self.memo[key] = (o, e, p.returncode)
        return self.memo[key]

    # ---- repositories
    def init(self, d, h, main, fmt="sha1"):
        os.makedirs(d)
        self.run("init", "-q", "--template=", "--object-format=" + fmt, "-b", main, d)
        sha = []
        if h.commits:
            marks = d + ".marks"
            self.run("fast-import", "--quiet", "--force", "--done", "--export-marks=" + marks, cwd=d,
                     input=h.fast_import(self.files, main))
            with open(marks) as fh:
                got = dict(line.split() for line in fh)
            os.unlink(marks)
            sha = [got[":%d" % (i + 1)] for i in range(len(h.commits))]
            self.run("update-ref", "-d", "refs/import", cwd=d)
        return sha

    def checkout(self):
        """The main checkout: directory, and the commit it is at (None: no commit yet)."""
        if "checkout" in self.made:
            return self.made["checkout"]
        plan, h = self.plan, self.h
        d = self.path("co", plan["name"])
        os.makedirs(self.path("co"))
        self.sha = self.init(d, h, plan["main"], plan.get("format", "sha1"))
        head = None
        if h.commits:
            kind, what = plan["head"]
            if kind == "branch" and what in h.branches:
                head = h.branches[what]
                self.run("checkout", "-q", "-f", what, cwd=d)
            else:
                head = (what if isinstance(what, int) else len(h.commits) - 1) % len(h.commits)
                self.run("checkout", "-q", "-f", "--detach", self.sha[head], cwd=d)
        else:
            for p, c in self.files.items():
                os.makedirs(os.path.dirname(os.path.join(d, p)) or d, exist_ok=True)
                with open(os.path.join(d, p), "wb") as fh:
                    fh.write(c)
        self.made["checkout"] = (d, head, False)
        return self.made["checkout"]

    def edit(self, e):
        """A working-tree operation of the user in the main checkout; the tree becomes dirty or not."""
        d, head, dirty = self.checkout()
        if head is None:
            return
        p = lambda f: os.path.join(d, f)
        if e in ("modify", "stage", "stage-restore"):
            with open(p("NOTES"), "a") as fh:
                fh.write("edited\n")
            if e != "modify":
                self.run("add", "NOTES", cwd=d)
            if e == "stage-restore":           # index differs from the commit, the tree does not
                with open(p("NOTES"), "w") as fh:
                    fh.write("notes %d\n" % head)
            dirty = True
        elif e == "modify-restore":
            with open(p("NOTES")) as fh:
                old = fh.read()
            with open(p("NOTES"), "w") as fh:
                fh.write("x")
            with open(p("NOTES"), "w") as fh:
                fh.write(old)
        elif e == "delete":
            os.path.exists(p("setup.py")) and os.unlink(p("setup.py"))
            dirty = True
        elif e == "source":
            with open(p("src/kalmankit/utils.py"), "a") as fh:
                fh.write("# changed here\n")
            dirty = True
        elif e == "chmod":
            os.chmod(p("NOTES"), 0o755)
            dirty = True
        elif e == "add":
            with open(p("NEW"), "w") as fh:
                fh.write("new\n")
            self.run("add", "NEW", cwd=d)
            dirty = True
        elif e == "untracked":
            with open(p("JUNK"), "w") as fh:
                fh.write("junk\n")
        elif e == "touch":
            os.utime(p("NOTES"), (1234567890, 1234567890))
        elif e == "ignored":
            os.makedirs(p(".git/info"), exist_ok=True)
            with open(p(".git/info/exclude"), "a") as fh:
                fh.write("*.o\n")
            with open(p("x.o"), "w") as fh:
                fh.write("o")
        self.made["checkout"] = (d, head, dirty)
        self.memo.clear()

    def put(self, d, files):
        for p, c in files.items():
            q = os.path.join(d, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as fh:
                fh.write(c)

    def other(self):
        """Somebody else's repository, with version tags of its own."""
        if "other" not in self.made:
            d = self.path("other")
            h = History([["commit", "main"], ["commit", "main"], ["tag", "v77.7.7", "annot", 1], ["commit", "main"]])
            self.init(d, h, "main")
            self.run("checkout", "-q", "-f", "main", cwd=d)
            with open(os.path.join(d, "NOTES"), "a") as fh:
                fh.write("dirty\n")
            self.run("add", "NOTES", cwd=d)
            self.made["other"] = d
        return self.made["other"]

    def expected(self, head, dirty, h=None):
        """Acceptable version records of a checkout at commit `head`."""
        h, sha = h or self.h, self.sha[head]
        t, tz = h.commits[head][1:]
        sec = t + int(tz[0] + "1") * (int(tz[1:3]) * 3600 + int(tz[3:]) * 60)
        import time as _t
        date = _t.strftime("%Y-%m-%dT%H:%M:%S", _t.gmtime(sec)) + tz
        e = {"full": sha, "date": date, "dirty": dirty, "versions": []}
        near = h.nearest(head)
        d = r"\.dirty" if dirty else ""
        for tag, n in near:
            v = re.escape(tag[1:])
            if n or dirty:
                v += r"%s%d\.g(?P<sha>[0-9a-f]{7,})%s" % (r"\." if "+" in tag else r"\+", n, d)
            e["versions"].append(v)
        if not near:
            e["versions"].append(r"0\+untagged\.%d\.g(?P<sha>[0-9a-f]{7,})%s" % (len(h.ancestors(head)), d))
        return e

    # ---- deployments: (package directory, directory the modules believe in, what may be reported)
    def deploy(self, v):
        key = repr((v["deploy"], v.get("at"), v.get("via"), v.get("layout"), v.get("dir"), v.get("depth"), v.get("inside"), v.get("by")))
        hit = self.made.get(key)
        if hit is not None and v["deploy"] not in ("checkout",):
            return hit
        self.serial += 1
        r = getattr(self, "deploy_" + v["deploy"])(v, self.serial)
        d, told, exp = r
        if told and v.get("via") == "symlink":
            link = self.path("link%d" % self.serial)
            os.symlink(os.path.dirname(os.path.dirname(told)), link)
            told = os.path.join(link, os.path.relpath(told, os.path.dirname(os.path.dirname(told))))
            r = (d, told, exp)
        self.made[key] = r
        return r

    def deploy_checkout(self, v, n):
        d, head, dirty = self.checkout()
        src = os.path.join(d, "src", "kalmankit")
        if head is None:
            return src, src, self.recorded(d)
        return src, src, {"checkout": self.expected(head, dirty), "dir": self.recorded(d)["version"]}

    def deploy_worktree(self, v, n):
        d, head, dirty = self.checkout()
        if head is None:
            return self.deploy_checkout(v, n)
        at = v.get("at", 0) % len(self.h.commits)
        w = self.path("wt%d" % n, v.get("dir", "tree"))
        os.makedirs(os.path.dirname(w))
        self.run("worktree", "add", "-q", "--detach", w, self.sha[at], cwd=d)
        src = os.path.join(w, "src", "kalmankit")
        return src, src, {"checkout": self.expected(at, False), "dir": self.recorded(w)["version"]}

    def deploy_clone(self, v, n):
        d, head, dirty = self.checkout()
        if head is None:
            return self.deploy_checkout(v, n)
        at = v.get("at", 0) % len(self.h.commits)
        w = self.path("cl%d" % n, v.get("dir", "tree"))
        if v.get("inside"):      # a checkout nested in somebody else's
            w = os.path.join(self.other(), "third%d" % n, v.get("dir", "tree"))
        os.makedirs(os.path.dirname(w))
        h = self.h
        if v.get("depth"):       # shallow: older history, and its tags, are not there
            h = h.shallow(at, v["depth"])
            self.run("update-ref", "refs/heads/zz-shallow", self.sha[at], cwd=d)
            self.run("clone", "-q", "--template=", "--no-checkout", "--depth", str(v["depth"]), "--branch", "zz-shallow", "file://" + d, w)
            self.run("update-ref", "-d", "refs/heads/zz-shallow", cwd=d)
        else:
            self.run("clone", "-q", "--template=", "--no-checkout", d, w)
        self.run("checkout", "-q", "-f", "--detach", self.sha[at], cwd=w)
        src = os.path.join(w, "src", "kalmankit")
        return src, src, {"checkout": self.expected(at, False, h), "dir": self.recorded(w)["version"]}

    def deploy_archive(self, v, n):
        d, head, dirty = self.checkout()
        if head is None:
            return self.deploy_copy(v, n)
        at = v.get("at", 0) % len(self.h.commits)
        top = self.path("ar%d" % n, v.get("dir", "tree"))
        os.makedirs(top)
        what = self.sha[at]
        if v.get("by") == "tag":
            ts = sorted(t for t, (c, _) in self.h.tags.items() if c == at)
            what = "refs/tags/" + ts[0] if ts else what
        tar = self.run("archive", "--format=tar", what, cwd=d)
        with tarfile.open(fileobj=io.BytesIO(tar)) as tf:
            tf.extractall(top, filter="data")
        src = os.path.join(top, "src", "kalmankit")
        here = [t for t, (c, _) in self.h.tags.items() if c == at]
        vt = sorted(t for t in here if re.match(r"v\d", t))
        e = {"archive": True, "full": self.sha[at], "version": vt[0][1:] if vt else None, "date": None}
        if vt:
            e["date"] = self.expected(at, False)["date"]
        if not here:             # heuristic for archives made by git before 1.8.3: see known_findings.json
            e["branches"] = [b[1:] for b, c in self.h.branches.items() if c == at and re.match(r"v\d", b)]
        if v.get("inside"):      # unpacked inside somebody else's checkout
            o = self.other()
            t2 = os.path.join(o, "unpacked%d" % n)
            shutil.copytree(top, t2)
            src = os.path.join(t2, "src", "kalmankit")
        return src, src, e

    def recorded(self, root):
        p = root
        for _ in range(3):
            b = os.path.basename(p)
            if b.startswith("kalmankit-") and len(b) > len("kalmankit-"):
                return {"version": b[len("kalmankit-"):], "bare": True}
            p = os.path.dirname(p)
        return {"version": None, "bare": True}

    def deploy_copy(self, v, n):
        """The bare package copied somewhere: nothing recorded but, possibly, the directory's name."""
        top = self.path("cp%d" % n, *v.get("dir", "tree").split("/"))
        if v.get("inside"):
            top = os.path.join(self.other(), "vendor%d" % n, *v.get("dir", "tree").split("/"))
        if v.get("layout") == "site":
            src = os.path.join(top, "lib", "python3", "site-packages", "kalmankit")
            root = os.path.dirname(os.path.dirname(os.path.dirname(src + "/x")))
            root = os.path.dirname(os.path.dirname(src))
        else:
            src = os.path.join(top, "src", "kalmankit")
            root = top
        os.makedirs(src)
        self.put(src, {os.path.relpath(p, "src/kalmankit"): c for p, c in self.files.items() if p.startswith("src/kalmankit/")})
        return src, src, self.recorded(root)

    def deploy_frozen(self, v, n):
        s, _, _ = self.deploy_copy({"dir": "fr"}, n)
        return s, None, {"version": None, "bare": True}

    def deploy_zip(self, v, n):
        s, _, _ = self.deploy_copy({"dir": "zz"}, n)
        told = self.path("lib%d.zip" % n, "src", "kalmankit")
        return s, told, {"version": None, "bare": True}

    def deploy_built(self, v, n):
        """A release built from the checkout: version computed by versioneer.py, written into the shipped package."""
        d, head, dirty = self.checkout()
        if head is None or not os.path.isfile(os.path.join(d, "setup.py")):
            return self.deploy_copy(v, n)
        old = os.getcwd(), list(sys.argv), dict(os.environ)
        mod = {}
        with open(os.path.join(d, "versioneer.py"), "rb") as fh:
            src = fh.read()
        key = ("versioneer.py", hashlib.blake2b(src, digest_size=12).digest())
        code = _code.get(key)
        if code is None:
            code = _code[key] = compile(src, "versioneer.py", "exec", dont_inherit=True)
        import types
        m = types.ModuleType("versioneer")
        m.__file__ = os.path.join(d, "versioneer.py")
        sp = Spawner(self, [])
        real, realout = subprocess.Popen, sys.stdout
        sys.modules["versioneer"] = m
        try:
            os.chdir(d)
            sys.argv = [os.path.join(d, "setup.py")]
            subprocess.Popen = sp.popen
            sys.stdout = io.StringIO()
            exec(code, m.__dict__)
            info = m.get_versions()
            top = self.path("bd%d" % n)
            pk = os.path.join(top, "kalmankit")
            os.makedirs(pk)
            self.put(pk, {os.path.relpath(p, "src/kalmankit"): c for p, c in self.files.items()
                          if p.startswith("src/kalmankit/")})
            m.write_to_version_file(os.path.join(pk, "_version.py"), info)
        finally:
            subprocess.Popen, sys.stdout = real, realout
            sys.argv[:] = old[1]
            os.chdir(old[0])
            sys.modules.pop("versioneer", None)
            for k in set(os.environ) - set(old[2]):
                del os.environ[k]
            os.environ.update(old[2])
        return pk, pk, {"checkout": self.expected(head, dirty), "built": True, "dir": None}


def known_env(w, names):
    """Inherited settings, as left by hooks, wrappers and users."""
    o = w.other
    table = {
        "GIT_DIR": lambda: os.path.join(o(), ".git"),
        "GIT_DIR-bogus": lambda: "/nonexistent/x.git",
        "GIT_WORK_TREE": lambda: o(),
        "GIT_INDEX_FILE": lambda: os.path.join(o(), ".git", "index"),
        "GIT_INDEX_FILE-relative": lambda: ".git/next-index-77.lock",
        "GIT_OBJECT_DIRECTORY": lambda: os.path.join(o(), ".git", "objects"),
        "GIT_COMMON_DIR": lambda: os.path.join(o(), ".git"),
        "GIT_NAMESPACE": lambda: "elsewhere",
        "GIT_PREFIX": lambda: "docs/",
        "GIT_CEILING_DIRECTORIES": lambda: w.dir,
        "GIT_REFLOG_ACTION": lambda: "rebase",
        "GIT_OPTIONAL_LOCKS": lambda: "0",
        "GIT_PAGER": lambda: "cat",
        "GIT_AUTHOR_DATE": lambda: "1700000000 +0000",
        "GIT_SHALLOW_FILE": lambda: os.path.join(w.dir, "nothing"),
        "GIT_GRAFT_FILE": lambda: os.path.join(w.dir, "nothing"),
        "LANG": lambda: "de_DE.UTF-8",
    }
    env = {}
    for n in names:
        if n.startswith("own:"):       # settings the package itself names
            env.update({q: n[4:] for q in lib.setting_names()})
    cfg = [n[4:] for n in names if n.startswith("cfg:")]
    for n in names:
        if n in table:
            env[n.split("-")[0]] = table[n]()
    if cfg:
        env["GIT_CONFIG_COUNT"] = str(len(cfg))
        for i, c in enumerate(cfg):
            k, val = c.split("=", 1)
            env["GIT_CONFIG_KEY_%d" % i], env["GIT_CONFIG_VALUE_%d" % i] = k, val
    return env


ENVS = ["GIT_DIR", "GIT_DIR", "GIT_DIR-bogus", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_INDEX_FILE", "GIT_INDEX_FILE-relative",
        "GIT_OBJECT_DIRECTORY", "GIT_COMMON_DIR", "GIT_NAMESPACE", "GIT_PREFIX", "GIT_CEILING_DIRECTORIES", "GIT_REFLOG_ACTION",
        "GIT_OPTIONAL_LOCKS", "GIT_PAGER", "GIT_AUTHOR_DATE", "GIT_SHALLOW_FILE", "GIT_GRAFT_FILE", "LANG",
        "cfg:core.abbrev=12", "cfg:core.abbrev=40", "cfg:color.ui=always", "cfg:log.date=relative", "cfg:core.pager=less",
        "unset:PATH", "unset:HOME", "own:9.9.9", "own:1", "own:0", "cfg:log.decorate=full", "cfg:column.ui=always", "cfg:format.pretty=fuller"]


# ------------------------------------------------------------------ one run
RECORD = ("version", "full-revisionid", "dirty", "error", "date")


class Run:
    def __init__(self, prop, plan):
        self.prop, self.plan = prop, plan
        self.viol, self.stats, self.trace = [], Counter(), []
        self.seen = []

    def bad(self, kind, detail):
        if len(self.viol) < 5:
            self.viol.append({"kind": kind, "detail": str(detail).replace(self.w.dir, "<scratch>")[:600]})

    def go(self):
        w = self.w = World(self.plan)
        inv = 0
        try:
            for i, v in enumerate(self.plan["visits"]):
                for e in v.get("edits", []):
                    w.edit(e)
                    self.stats["op:edit-" + e] += 1
                if v["deploy"] == "built" and w.checkout()[2] is None:
                    continue
                inv += self.visit(i, v)
                if self.viol:
                    break
        finally:
            w.close()
        sig = hashlib.blake2b(repr((self.trace, [v["deploy"] for v in self.plan["visits"]], len(w.h.commits))).encode(),
                              digest_size=8).hexdigest()
        dg = hashlib.blake2b(repr(self.seen).encode(), digest_size=8).hexdigest()
        return {"violations": self.viol, "stats": dict(self.stats), "sig": sig, "digest": dg,
                "nontrivial": any(k.startswith(("fault:", "env:", "op:edit")) or k in ("deploy:archive", "deploy:copy", "deploy:built")
                                  for k in self.stats),
                "simtime": 0.0, "measures": {"imports": len(self.seen), "tool_invocations": inv, "real_git_processes": w.spawned}}

    def visit(self, i, v):
        w = self.w
        try:
            src, told, exp = w.deploy(v)
        except RuntimeError:
            raise
        except Exception as ex:
            if v["deploy"] == "built":
                self.bad("build-failed", "building a release failed: %r" % ex)
                return 0
            raise
        where = "import %d from %s%s" % (i, v["deploy"], " (environment: %s)" % ", ".join(v["env"]) if v.get("env") else "")
        self.stats["deploy:" + v["deploy"] + ("-shallow" if v.get("depth") else "")] += 1
        for e in v.get("env", []):
            self.stats["env:" + e.split("=")[0]] += 1
        for q in ("optimize", "stdout"):
            if v.get(q):
                self.stats["env:python-%s-%s" % (q, v[q])] += 1
                where += " with %s %s" % (q, v[q])
        if v.get("cwd") == "gone":
            self.stats["env:working-directory-removed"] += 1
            where += " from a removed working directory"
        win = v.get("windows")
        tools = ("git",) if win is None else ("git.cmd",) if win == "cmd" else ("git", "git.exe") if win == "exe" else (
            "git", "git.exe", "git.cmd")
        sp = Spawner(w, v.get("faults", []), tools)
        if win is not None:
            self.stats["deploy:on-windows-" + win] += 1
            where += " on Windows (%s)" % ", ".join(tools)
        add = known_env(w, v.get("env", []))
        before_real = dict(os.environ)
        os.environ.update(add)
        for e in v.get("env", []):
            if e.startswith("unset:"):
                os.environ.pop(e[6:], None)
        before = dict(os.environ)
        cwd = os.getcwd()
        if v.get("cwd") == "other":
            os.chdir(w.other())
        elif v.get("cwd") == "gone":
            gone = w.path("gone%d" % i)
            os.makedirs(gone)
            os.chdir(gone)
            os.rmdir(gone)
        here = where_am_i()
        finder = _Finder(src, told)
        lib.purge()
        sys.meta_path.insert(0, finder)
        subprocess.Popen = sp.popen
        out, sys.stdout = sys.stdout, None if v.get("stdout") == "none" else io.StringIO()
        if v.get("stdout") == "closed":
            sys.stdout.close()
        lib.OPTIMIZE[0] = v.get("optimize", 0)
        m, err, info, self.last = None, None, None, None
        box = Windows(win is not None)
        box.__enter__()
        try:
            while True:
                try:
                    m = importlib.import_module("kalmankit")
                    m.KalmanFilter, m.ExtendedKalmanFilter
                    self.last = getattr(m, "__version__", None)
                    info = m._version.get_versions() if hasattr(m, "_version") else None
                    break
                except KeyboardInterrupt:
                    if not sp.fired["interrupted"] or not any(f["kind"] == "interrupted" for f in sp.faults):
                        raise
                    if dict(os.environ) != before:
                        self.bad("environment-changed", "%s: an interrupted import changed the environment" % where)
                    sp.faults = [f for f in sp.faults if f["kind"] != "interrupted"]
                    self.stats["op:import-again-after-interrupt"] += 1       # the user tries again
        except Exception as ex:
            err = ex
        except SystemExit as ex:
            err = ex
        finally:
            box.__exit__()
            sys.stdout = out
            lib.OPTIMIZE[0] = 0
            subprocess.Popen = _real_popen
            sys.meta_path.remove(finder)
            after, now = dict(os.environ), where_am_i()
            os.chdir(cwd)
            for k in set(os.environ) - set(before_real):
                del os.environ[k]
            os.environ.update(before_real)
            lib.purge()
        for k, n in sp.fired.items():
            self.stats["fault:" + k] += n
        self.trace.append((v["deploy"], tuple(v.get("env", [])), tuple(sp.trace)))
        self.seen.append((v["deploy"], self.last if err is None else repr(type(err))))
        if err is not None:
            self.bad("import-failed", "%s: %s: %s (tool calls: %s)" % (where, type(err).__name__, err, sp.trace))
            return sp.n
        if after != before:
            ch = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
            self.bad("environment-changed", "%s changed %s" % (where, ch))
        if now != here:
            self.bad("environment-changed", "%s changed the working directory" % where)
        self.judge(where, v, sp, exp, self.last, info)
        return sp.n

    def judge(self, where, v, sp, exp, ver, info):
        if not isinstance(ver, str) or not ver.strip():
            self.bad("version-empty", "%s: version is %r (tool calls: %s)" % (where, ver, sp.trace))
            return
        fired = sum(sp.fired.values())
        if self.prop == "C14":
            if not self.acceptable(exp, ver, bool(fired)):
                self.bad("version-made-up", "%s: version %r with tool calls %s" % (where, ver, sp.trace))
            return
        # C15
        why = self.true_version(exp, ver)
        if why and exp.get("branches") and ver in exp["branches"]:
            self.bad("archive-branch-as-version", "%s: version %r is the name of a branch at the archived, untagged commit" % (where, ver))
            return
        if why:
            self.bad("wrong-version", "%s: version %r: %s (tool calls: %s)" % (where, ver, why, sp.trace))
            return
        optional = fired and all(f.get("asks") for f in v.get("faults", []))
        if info is None or fired and not optional:
            return
        if info.get("version") != ver:
            self.bad("wrong-version", "%s: __version__ is %r, version record says %r" % (where, ver, info.get("version")))
        lacks = [q for q in RECORD if q not in info]
        if lacks:
            self.bad("wrong-record", "%s: the version record lacks %s" % (where, lacks))
        c = exp.get("checkout")
        if exp.get("bare"):      # nobody knows the commit
            if info.get("full-revisionid") is not None or info.get("date") is not None or info.get("dirty"):
                self.bad("wrong-record", "%s: the version record %r says more than is known" % (where, info))
        elif c:
            for q, want in (("full-revisionid", c["full"]), ("dirty", c["dirty"]), ("date", c["date"])):
                if info.get(q) != want and not (optional and q == "date" and not sp.fired["signature"]
                                                   and (info.get(q) is None or damaged(v))):
                    self.bad("wrong-record", "%s: %s is %r, not %r" % (where, q, info.get(q), want))
        elif exp.get("archive"):
            if info.get("full-revisionid") != exp["full"]:
                self.bad("wrong-record", "%s: full revision %r, archived commit is %s" % (where, info.get("full-revisionid"), exp["full"]))
            if exp["version"] is not None and info.get("date") != exp["date"]:
                self.bad("wrong-record", "%s: date is %r, not %r" % (where, info.get("date"), exp["date"]))

    def true_version(self, exp, ver):
        """None if it is the true version, else why not."""
        c = exp.get("checkout")
        if c:
            for pat in c["versions"]:
                mo = re.fullmatch(pat, ver)
                if mo:
                    sha = mo.groupdict().get("sha")
                    if sha and not c["full"].startswith(sha):
                        return "abbreviated commit is not that of the checkout (%s)" % c["full"]
                    return None
            return "expected one of %s" % [p.replace("\\", "").replace("(?P<sha>[0-9a-f]{7,})", c["full"][:7]) for p in c["versions"]]
        if exp["version"] is not None:
            return None if ver == exp["version"] else "recorded is %r" % exp["version"]
        return None if "unknown" in ver else "nothing is recorded"

    def acceptable(self, exp, ver, fired):
        if self.true_version(exp, ver) is None:
            return True
        if not fired:
            # values without faults are C15's business; a release nobody recorded is not acceptable even so
            return True
        if ver in ("unknown",) or "unknown" in ver or ver.startswith("0+untagged"):
            return True
        return exp.get("dir") is not None and ver == exp["dir"]


# ------------------------------------------------------------------ generation
TAGS = ["v0.1", "v0.2.0", "v1.0.0", "v1.0.0rc1", "v1.1.0", "v1.9.0", "v1.10.0", "v2.0.0-beta", "v2.0.0", "v10.0", "v3.0+local.1",
        "v3", "v4.0.dev1", "v2024.1.5", "v5.0-7-gabc1234"]
DECOYS = ["release-9.9", "vnext", "1.2.3", "version-2", "V3.0", "v-1", "kalmankit-3.0", "stable", "rel/v9.1", "latest", "va1.0", "9.0.0"]
BRANCHES = ["dev", "feature/x", "release-2", "fix-1.2", "topic", "main2"]
DIRS = ["tree", "kalmankit", "kalmankit-1.5.0", "kalmankit-0.3.1rc2", "src", "kalmankit_2.0", "python-kalmankit-9", "kalmankit-6.0/inner", "kalmankit-9.9/kalmankit-1.5.0", "kalmankit-2.2/kalmankit-3.3/kalmankit",
        "kalmankit-8.1+local"]


def gen_ops(r, big, vbranch):
    main = r.choice(["main", "master", "master", "trunk"])
    ops = []
    if r.random() < 0.03:
        return main, ops, ["branch", main]
    n = r.choice([1, 2, 3, 5, 8] + ([15, 30] if big else [12]))
    brs = [main]
    pb, pm, pt = r.choice([0, 0.15, 0.3]), r.choice([0, 0.3, 0.6]), r.choice([0.1, 0.3, 0.5])
    count = 0
    while count < n:
        ops.append(["commit", r.choice(brs)])
        count += 1
        if r.random() < pb and len(brs) < 4:
            b = r.choice(BRANCHES)
            if b not in brs:
                ops.append(["branch", b, r.randrange(0, count)])
                brs.append(b)
        if len(brs) > 1 and r.random() < pm:
            a, b = r.sample(brs, 2)
            ops.append(["merge", a, b])
        if r.random() < pt:
            at = count - 1 if r.random() < 0.7 else r.randrange(count)
            ops.append(["tag", r.choice(TAGS) if r.random() < 0.7 else r.choice(DECOYS), r.choice(["light", "annot"]), at])
    if r.random() < 0.3 and any(o[0] == "tag" for o in ops):      # several tags on one commit
        at = next(o[3] for o in reversed(ops) if o[0] == "tag")
        for _ in range(r.randint(1, 2)):
            ops.append(["tag", r.choice(TAGS + DECOYS), r.choice(["light", "annot"]), at])
    if vbranch:
        ops.append(["branch", r.choice(["v6.0", "v2-dev", "v7"]), r.randrange(n)])
        if r.random() < 0.3:
            ops.append(["commit", ops[-1][1]])
    tips = [o[3] for o in ops if o[0] == "tag"]
    k = r.random()
    head = ["branch", r.choice(brs)] if k < 0.55 else ["detach", r.choice(tips) if tips and r.random() < 0.6 else r.randrange(n)]
    return main, ops, head


def gen(prop, r, tier):
    big = tier == "thorough"
    vbranch = r.random() < 0.12
    main, ops, head = gen_ops(r, big, vbranch)
    plan = {"main": main, "ops": ops, "head": head, "name": r.choice(["work", "work", "kalmankit", "kalmankit-7.7"]),
            "format": "sha256" if r.random() < 0.05 else "sha1", "visits": []}
    nc = max(1, sum(1 for o in ops if o[0] in ("commit", "merge")))
    deploys = (["checkout"] * 8 + ["worktree", "clone", "clone", "archive", "archive", "copy", "copy", "frozen", "zip", "built"] if prop == "C14"
               else ["checkout"] * 6 + ["worktree", "clone", "clone", "archive", "archive", "archive", "copy", "copy", "built", "frozen", "zip"])
    tagat = [o[3] for o in ops if o[0] == "tag"]
    vtips = [c for b, c in History(ops).branches.items() if re.match(r"v\d", b)] if vbranch else []
    for i in range(r.choice([2, 3, 4, 6])):
        v = {"deploy": r.choice(deploys)}
        if v["deploy"] in ("worktree", "clone", "archive"):
            v["at"] = r.choice(vtips) if vtips and r.random() < 0.5 else r.choice(tagat) if tagat and r.random() < 0.65 else r.randrange(nc)
        if v["deploy"] in ("archive", "copy", "worktree", "clone"):
            v["dir"] = r.choice(DIRS) if v["deploy"] == "copy" else r.choice(DIRS).split("/")[0]
            if prop == "C14" and r.random() < 0.1 and v["deploy"] == "copy":
                v["dir"] = r.choice(["kalmankit-", "-", "kalmankit--"])
        if v["deploy"] == "archive" and r.random() < 0.3:
            v["by"] = "tag"
        if v["deploy"] in ("archive", "copy", "clone") and r.random() < 0.3:
            v["inside"] = True
        if v["deploy"] == "clone" and r.random() < 0.4:
            v["depth"] = r.choice([1, 1, 2, 3, 5])
        if v["deploy"] == "copy" and r.random() < 0.3:
            v["layout"] = "site"
        if r.random() < 0.15 and v["deploy"] in ("checkout", "copy", "archive") and not v.get("layout"):
            v["via"] = "symlink"
        if r.random() < 0.35:
            v["edits"] = [r.choice(["modify", "stage", "stage-restore", "modify-restore", "delete", "source", "chmod", "add",
                                    "untracked", "touch", "ignored", "untracked", "touch", "modify-restore"])
                          for _ in range(r.choice([1, 1, 2]))]
        if r.random() < (0.45 if prop == "C15" else 0.25):
            v["env"] = sorted(set(r.choice(ENVS) for _ in range(r.choice([1, 1, 2, 3]))))
        if r.random() < 0.2:
            v["cwd"] = "other" if r.random() < 0.8 else "gone"
        if r.random() < 0.06:
            v["optimize"] = r.choice([1, 2])
        if r.random() < 0.04:
            v["stdout"] = r.choice(["none", "closed"])
        if r.random() < 0.1:
            v["windows"] = r.choice(["exe", "exe", "both"] + (["cmd"] if prop == "C14" else []))
        if prop == "C14" and r.random() < 0.9:
            fs = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                f = {"kind": r.choice(KINDS), "arg": r.randrange(100)}
                if r.random() < 0.06:
                    fs.append({"kind": "interrupted", "at": r.randint(1, 14)})
                k = r.random()
                if k < 0.6:
                    f["at"] = r.randint(1, 22)
                elif k < 0.8:
                    f["from"] = r.randint(1, 14)
                else:
                    f["from"], f["every"] = r.randint(1, 8), r.randint(2, 8)
                fs.append(f)
            v["faults"] = fs
        if prop == "C15" and r.random() < 0.25:
            v["faults"] = [{"kind": r.choice(OPTIONAL), "arg": r.randrange(100), "asks": "date"}]
        plan["visits"].append(v)
    return plan


OPTIONAL = ["fails", "fails-noisily", "killed", "killed-undecodable", "empty", "garbled", "absent", "no-memory", "io-error", "slow", "signature",
            "signature", "signature"]


def execute(prop, plan, mirror=None):
    return Run(prop, plan).go()


def shrink(prop, plan):
    vs = plan["visits"]
    for c in chunks(vs):
        if c:
            yield {**plan, "visits": c}
    for c in chunks(plan["ops"]):
        yield {**plan, "ops": c}
    for i, v in enumerate(vs):
        rep = lambda nv: {**plan, "visits": vs[:i] + [nv] + vs[i + 1:]}
        for q in ("faults", "env", "edits"):
            if v.get(q):
                for c in chunks(v[q]):
                    yield rep({**v, q: c})
        for q in ("optimize", "stdout", "via", "cwd", "inside", "layout", "by", "windows", "depth"):
            if q in v:
                yield rep({k: x for k, x in v.items() if k != q})
        if v.get("dir", "tree") != "tree":
            yield rep({**v, "dir": "tree"})
        for j, f in enumerate(v.get("faults", [])):
            if "every" in f:
                g = {k: x for k, x in f.items() if k != "every"}
                yield rep({**v, "faults": v["faults"][:j] + [g] + v["faults"][j + 1:]})
            if "from" in f:
                g = {k: x for k, x in f.items() if k not in ("from", "every")}
                g["at"] = f["from"]
                yield rep({**v, "faults": v["faults"][:j] + [g] + v["faults"][j + 1:]})
            if f.get("kind") != "fails":
                yield rep({**v, "faults": v["faults"][:j] + [{**f, "kind": "fails"}] + v["faults"][j + 1:]})
    for q, d in (("name", "work"), ("format", "sha1"), ("head", ["branch", plan["main"]])):
        if plan[q] != d:
            yield {**plan, q: d}


def describe(prop, plan):
    return {"history": "%d operations" % len(plan["ops"]), "tags": [o[1] for o in plan["ops"] if o[0] == "tag"],
            "head": plan["head"], "visits": plan["visits"]}
