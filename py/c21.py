"""C21: imports which download the sample robots, under every bounded combination of kills, download failures and
interleavings. Every import is a real process running the real package; its file system calls and the steps of a
stand-in for the downloads are the points where it is scheduled, killed or where the download fails."""
import builtins
import hashlib
import io
import json
import os
import select
import shutil
import sys

import mc

try:
    mc.import_tinyfk()
except Exception:  # the exploration will show what is wrong with it
    for _n in [n for n in sys.modules if n == "tinyfk" or (n.startswith("tinyfk.") and n != "tinyfk._tinyfk")]:
        del sys.modules[_n]
import fcntl
import numpy  # noqa: F401  (loaded once, before the forks)
import pathlib  # noqa: F401
import ssl  # noqa: F401
import tempfile  # noqa: F401
import email.message
import http.client
import urllib.error
import urllib.request
import uuid  # noqa: F401

EXT = sys.modules.get("tinyfk._tinyfk")
if EXT is None:
    import glob
    import importlib.util
    _s = importlib.util.spec_from_file_location("tinyfk._tinyfk", glob.glob(os.path.join(os.environ["MC_STAGE"], "tinyfk", "_tinyfk*.so"))[0])
    EXT = importlib.util.module_from_spec(_s)
    _s.loader.exec_module(EXT)
HOME = os.path.join(os.environ["MC_SCRATCH"], "home21-%d" % os.getpid())
STOP = os.path.join(os.path.dirname(os.environ["MC_SCRATCH"]), "stop21")
CACHE = os.path.join(HOME, ".tinyfk")
FILES = {"pr2.urdf": [b"<robot name='pr2'>", b"<link name='a'/></robot>\n"], "fetch.urdf": [b"<robot name='fetch'>", b"<link name='b'/></robot>\n"]}
WHOLE = {n: b"".join(c) for n, c in FILES.items()}
TIMEOUT = 20
SEEN = {}  # file name -> the execution it was seen in; SHARED: names used in more than one execution
SHARED = set(FILES) | {".tinyfk", "lock"}
RUN = [0]


# ---------------------------------------------------------------------------- the importing process
class Agent:
    """talks to the explorer; one exchange per point"""
    def __init__(self, r, w):
        self.r, self.w = r, w
        self.quiet = False

    def say(self, *m):
        os.write(self.w, (json.dumps(m) + "\n").encode())

    def point(self, op, path, can_fail=False):
        """waits to be scheduled; True if the download is to fail here"""
        self.say("point", op, path, can_fail)
        while True:
            c = os.read(self.r, 1)
            if c == b"g":
                return False
            if c == b"f":
                return True
            if c == b"e":
                return "end"
            os._exit(9)  # killed (or the explorer is gone)

    def result(self, what):
        self.say("result", what)


def instrument(ag):
    real = {}

    def ours(p):
        if isinstance(p, int):
            return None
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return os.path.relpath(p, HOME) if p.startswith(HOME + "/") else None

    def wrap(mod, name, digest=lambda r: "ok"):
        f = getattr(mod, name)
        real[name] = f

        def g(*a, **k):
            if ag.quiet or not a:
                return f(*a, **k)
            p = [x for x in (ours(x) for x in a[:2]) if x is not None]
            if not p:
                return f(*a, **k)
            ag.point(name, p)
            try:
                r = f(*a, **k)
            except BaseException as e:
                ag.result(type(e).__name__)
                raise
            ag.result(digest(r))
            return r
        setattr(mod, name, g)
        return g
    for n in ("mkdir", "rename", "replace", "remove", "unlink", "rmdir", "open", "link", "symlink", "access", "utime", "truncate", "chmod", "readlink"):
        wrap(os, n)
    for n in ("stat", "lstat"):
        wrap(os, n, lambda r: "mode %o size %d" % (r.st_mode, r.st_size))
    wrap(os, "listdir", lambda r: sorted(r).__repr__())
    wrap(os, "scandir")
    builtins.open = wrap(io, "open")
    flock = fcntl.flock

    def locked(fd, op):
        if op & (fcntl.LOCK_NB | fcntl.LOCK_UN) or ag.quiet:
            return flock(fd, op)
        while True:
            ag.point("flock", ["lock"])
            try:
                r = flock(fd, op | fcntl.LOCK_NB)
                ag.result("ok")
                return r
            except BlockingIOError:
                ag.result("blocked")
    fcntl.flock = locked

    def chunks(url):
        name = str(url).rsplit("/", 1)[-1]
        if ag.point("connect", [name], True):
            ag.result("failed")
            raise urllib.error.URLError("no connection")
        ag.result("ok")
        return name

    def urlretrieve(url, filename=None, reporthook=None, data=None):
        name = chunks(url)
        if filename is None:
            fd, filename = tempfile.mkstemp()
            os.close(fd)
        with open(filename, "wb") as f:
            for k, c in enumerate(FILES[name]):
                if ag.point("block %d" % k, [os.fspath(filename)], True):
                    ag.result("failed")
                    raise urllib.error.ContentTooShortError("retrieval incomplete", None) if k else urllib.error.URLError("connection reset")
                f.write(c)
                f.flush()
                ag.result("ok")
        return filename, {}

    class Response(io.BufferedIOBase):
        """for downloads by urlopen. As with http.client, a connection which is closed early looks like the end of
        the body to read(n); only read() without a size raises"""
        def __init__(self, name):
            self.name, self.data, self.pos, self.cut = name, WHOLE[name], 0, False
            self.headers = email.message.Message()
            self.headers["Content-Length"] = str(len(self.data))
            self.status = self.code = 200
            self.url = name

        @property
        def length(self):
            return len(self.data) - self.pos

        def readable(self):
            return True

        def read(self, n=-1):
            whole = n is None or n < 0
            if not self.cut and self.length:
                how = ag.point("block", [self.name], 2)
                if how is True:
                    ag.result("failed")
                    raise ConnectionResetError("connection reset")
                self.cut = how == "end"
                ag.result("cut" if self.cut else "ok")
            if self.cut:
                if whole:
                    raise http.client.IncompleteRead(b"", self.length)
                return b""
            n = self.length if whole or n >= self.length > n - 2 else min(n, 12)
            r = self.data[self.pos:self.pos + n]
            self.pos += len(r)
            return r

        read1 = read

        def readinto(self, b):
            r = self.read(len(b))
            b[:len(r)] = r
            return len(r)

        def info(self):
            return self.headers

        def getheader(self, name, default=None):
            return self.headers.get(name, default)

        def getheaders(self):
            return self.headers.items()

        def getcode(self):
            return 200

        def geturl(self):
            return self.name
    urllib.request.urlretrieve = urlretrieve
    urllib.request.urlopen = lambda url, *a, **k: Response(chunks(getattr(url, "full_url", url)))


def importing(r, w):
    ag = Agent(r, w)
    try:
        os.environ["HOME"] = HOME
        for n in [n for n in sys.modules if n == "tinyfk" or n.startswith("tinyfk.")]:
            del sys.modules[n]
        sys.modules["tinyfk._tinyfk"] = EXT
        instrument(ag)
        try:
            import tinyfk
        except BaseException as e:
            ag.quiet = True
            ag.say("raised", type(e).__name__, str(e)[:300])
            os._exit(1)
        ag.quiet = True
        ag.say("imported", [str(tinyfk.pr2_urdfpath()), str(tinyfk.fetch_urdfpath())])
    finally:
        os._exit(0)


# ---------------------------------------------------------------------------- the explorer
class Hang(Exception):
    pass


class Proc:
    def __init__(self, i):
        self.i = i
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            importing(r1, w2)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b""
        self.obs = hashlib.blake2b(digest_size=8)
        self.names = {}
        self.alive, self.at, self.failed = True, None, False
        self.outcome = None
        self.points = 0
        self.advance()

    def read(self):
        while b"\n" not in self.buf:
            if not select.select([self.r], [], [], TIMEOUT)[0]:
                raise Hang("process %d does not answer" % self.i)
            b = os.read(self.r, 65536)
            if not b:
                return ["died"]
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)

    def private(self):
        """the next step concerns nothing but a file whose name no other process ever uses, or the network"""
        return self.at[1] == "connect" or not any(os.path.basename(p) in SHARED for p in self.at[2])

    def canon(self, s):
        for n in sorted(self.names, key=len, reverse=True):
            s = s.replace(n, self.names[n])
        return s

    def advance(self):
        """reads until the next point or the end"""
        while True:
            m = self.read()
            if m[0] == "result":
                if m[1] != "blocked":
                    self.obs.update(self.canon(json.dumps(m)).encode())
                continue
            if m[0] == "point":
                for p in m[2]:
                    n = os.path.basename(p)
                    if SEEN.setdefault(n, (RUN[0], self.i)) != (RUN[0], self.i):
                        SHARED.add(n)
                    if n not in FILES and n not in (".tinyfk", "lock") and n not in self.names:
                        self.names[n] = "t%d.%d" % (self.i, len(self.names))
                self.at = m
                self.points += 1
                self.here = self.canon(json.dumps(m))
                return
            self.alive = False
            self.outcome = m
            self.here = self.canon(json.dumps(m[:1]))
            self.reap()
            return

    def reap(self):
        if self.pid:
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)
            self.pid = 0

    def act(self, a):
        os.write(self.w, a.encode())
        if a == "k":
            self.alive, self.outcome, self.here = False, ["killed"], "killed"
            self.reap()
            return
        if a in "fe":
            self.failed = True
        self.obs.update((a + self.here).encode())
        self.advance()


class World:
    """one execution, driven by actions: 's' starts an import; (i, 'g' go | 'f' fail the download | 'e' end it early | 'k' kill)"""
    def __init__(self, ctx):
        self.ctx = ctx
        shutil.rmtree(HOME, ignore_errors=True)
        os.makedirs(HOME)
        RUN[0] += 1
        self.procs, self.trace = [], []
        self.success = False

    def do(self, a, quiet=False):
        self.trace.append(a)
        if not quiet:
            self.ctx.step()
        if a == "s":
            p = Proc(len(self.procs))
            self.procs.append(p)
        else:
            p = self.procs[a[0]]
            p.act(a[1])
        if quiet:
            return
        if not p.alive:
            o = p.outcome
            self.ctx.comparisons += 1
            if o[0] == "imported":
                self.success = True
                if [os.path.abspath(x) for x in o[1]] != [os.path.join(CACHE, n) for n in FILES]:
                    self.bad("path", "the paths of the sample robots are %s" % o[1])
            elif o[0] == "raised" and not p.failed:
                self.bad("import-fails", "import %d raises %s: %s although no download of its own failed" % (p.i, o[1], o[2]))
            elif o[0] == "died":
                self.bad("import-fails", "import %d died" % p.i)
        if self.success:
            self.ctx.comparisons += 2
            for n in FILES:
                c = self.content(n)
                if c != WHOLE[n]:
                    self.bad("incomplete", "an import has succeeded but %s is %s" % (n, "missing" if c is None else "%d of %d bytes" % (len(c), len(WHOLE[n]))))

    def bad(self, key, msg):
        log = []
        self.ctx.fail(key, "%s; actions: %s" % (msg, " ".join(a if a == "s" else "%d%s" % a for a in self.trace)))

    def content(self, n):
        try:
            with open(os.path.join(CACHE, n), "rb") as f:
                return f.read()
        except OSError:
            return None

    def files(self, full=True):
        names = {}
        for p in self.procs:
            names.update(p.names)
        out = []
        for d, ds, fs in os.walk(HOME):
            rel = os.path.relpath(d, HOME)
            for n in ds:
                out.append((rel, n, "dir"))
            for n in fs:
                with open(os.path.join(d, n), "rb") as f:
                    c = f.read()
                out.append((rel, n if n in FILES else names.get(n, "?") if full else "other", hashlib.blake2b(c, digest_size=4).hexdigest()))
        return tuple(sorted(out))

    def key(self):
        return (self.files(), tuple((p.here, p.obs.hexdigest()) if p.alive else p.outcome[0] for p in self.procs), self.success)

    def close(self):
        for p in self.procs:
            if p.alive:
                try:
                    os.write(p.w, b"k")
                except OSError:
                    pass
                p.reap()
                p.alive = False


FINAL = set()


def explore(ctx, prefix, total, conc, kills, fails, limit=None):
    """every execution which starts with prefix: up to `total` imports, `conc` at a time, with that many faults"""
    seen = set()
    stack = [(tuple(prefix), kills, fails)]
    first = True
    before = len(ctx.failures)
    while stack:
        pre, k, f = stack.pop()
        w = World(ctx)
        try:
            for a in pre:
                w.do(a, quiet=not first and a is not pre[-1])
            first = False
            while True:
                key = (w.key(), k, f)
                if key in seen:
                    break
                seen.add(key)
                ctx.state(key)
                live = [p for p in w.procs if p.alive]
                acts = []
                if len(w.procs) < total and len(live) < conc:
                    acts.append(("s", k, f))
                # a private step commutes with everything the others do: no need to interleave it
                own = [p for p in live if p.private()][:1]
                if own:
                    acts = []
                for p in own or live:
                    acts.append(((p.i, "g"), k, f))
                    if k:
                        acts.append(((p.i, "k"), k - 1, f))
                    if f and p.at[3]:
                        acts.append(((p.i, "f"), k, f - 1))
                    if f and p.at[3] == 2:
                        acts.append(((p.i, "e"), k, f - 1))
                if not live:
                    final(ctx, w, bool(acts))
                if not acts or (not live and w.procs[-1:] and not w.procs[-1].alive and len(w.procs) > total):
                    break
                for a, k2, f2 in acts[1:]:
                    stack.append((tuple(w.trace) + (a,), k2, f2))
                a, k, f = acts[0]
                w.do(a)
        except Hang as e:
            w.bad("hang", str(e))
        finally:
            w.close()
        if len(ctx.failures) > before + 2 or os.path.exists(STOP):
            open(STOP, "w").close()  # the other shards need not finish either
            return


def final(ctx, w, more):
    """no import is running: a further one, undisturbed, must succeed, without downloading what is there"""
    d = w.files(False)
    if d in FINAL:
        return
    FINAL.add(d)
    trace = list(w.trace)
    # in a copy of the directory, because the exploration goes on
    keep = HOME + ".keep"
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(HOME, keep)
    whole = all(w.content(n) == WHOLE[n] for n in FILES)
    p = Proc(99)
    try:
        n = 0
        while p.alive:
            n += 1
            if whole and p.at[1] == "connect":
                w.bad("download", "an import downloads although both files are there")
                whole = False
            p.act("g")
            ctx.step()
            if n > 3000:
                raise Hang("an undisturbed import does not end")
        ctx.comparisons += 1
        if p.outcome[0] != "imported":
            w.bad("import-fails", "afterwards, an undisturbed import fails: %s" % p.outcome)
        else:
            for n in FILES:
                if w.content(n) != WHOLE[n]:
                    w.bad("incomplete", "afterwards, an undisturbed import succeeds but %s is not complete" % n)
    finally:
        if p.alive:
            p.act("k")
        shutil.rmtree(HOME)
        os.rename(keep, HOME)


def starts():
    """fates of a first import (killed, or its download failing, before any of its steps), one for every
    content of the directory they can leave: (what, actions)"""
    out, seen = [], set()

    def take(what, w):
        d = w.files(False)
        if d not in seen:
            seen.add(d)
            out.append((what, tuple(w.trace)))
    n, k, ended = 0, 0, False
    while not ended and k < 400:
        for kind in "kfe":
            w = World(mc.Ctx(None))
            try:
                w.do("s", True)
                for _ in range(k):
                    if not w.procs[0].alive:
                        break
                    w.do((0, "g"), True)
                if not w.procs[0].alive:
                    ended = True
                    take("completes", w)
                elif kind == "k" or w.procs[0].at[3] >= (2 if kind == "e" else 1):
                    n += 1
                    at = w.procs[0].here
                    w.do((0, kind), True)
                    while w.procs[0].alive:
                        w.do((0, "g"), True)
                    take("%s at step %d %s" % ({"k": "killed", "f": "download fails", "e": "download ends early"}[kind], k, at), w)
            finally:
                w.close()
        k += 1
    return n, out


def make(thorough):
    n, st = starts()
    ST = [("none", ())] + st

    def fam(name, total, conc, budgets):
        def run(i, ctx):
            b, (_, pre) = budgets[i % len(budgets)], ST[i // len(budgets)]
            ctx.note = describe(i)
            FINAL.clear()
            explore(ctx, pre, total + bool(pre), conc, *b)
            ctx.nontrivial += 1

        def describe(i):
            b, (what, _) = budgets[i % len(budgets)], ST[i // len(budgets)]
            return "first import: %s (one of %d fates); then %d imports, %d at a time, %d killed, %d with a failing download" % ((what, n, total, conc) + b)
        return mc.Family(name, len(budgets) * len(ST), run, describe)
    F = [fam("sequential", 3 if thorough else 2, 1, [(3, 0), (0, 3), (2, 1), (1, 2)] if thorough else [(2, 0), (0, 2), (1, 1)]),
         fam("two", 2, 2, [(0, 0), (1, 0), (0, 1)] + ([(1, 1), (2, 0), (0, 2)] if thorough else []))]
    if thorough:
        F.append(fam("three", 3, 3, [(0, 0)]))
    return F


if __name__ == "__main__":
    try:
        r = mc.main(make)
    finally:
        shutil.rmtree(HOME, ignore_errors=True)
        shutil.rmtree(HOME + ".keep", ignore_errors=True)
    raise SystemExit(r)
