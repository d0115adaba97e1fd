"""Exhaustive enumeration of indexed case families over the Python package (same protocol as harness/mc.hpp)."""
import argparse, array, hashlib, json, mmap, os, struct, sys, time, traceback

sys.dont_write_bytecode = True
PROG = struct.Struct("=QQ48sQ")


class Family:
    def __init__(self, name, size, run, describe=None):
        self.name, self.size, self.run, self.describe = name, size, run, describe


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.transitions = self.comparisons = self.nontrivial = self.skipped = 0
        self.states = set()
        self.failures = []
        self.per_key = {}
        self.seq = 0
        self.fam, self.idx, self.note = "", 0, ""
        self.replay = False
        self.max_failures = 1 if os.environ.get("VERIF_FAILFAST") else 60

    def tick(self):
        self.seq += 1
        if self.prog is not None:
            struct.pack_into("=Q", self.prog, 0, self.seq)

    def step(self, n=1):
        self.transitions += n
        self.tick()

    def begin(self, fam, idx):
        self.fam, self.idx, self.note = fam, idx, ""
        self.seq += 1
        if self.prog is not None:
            PROG.pack_into(self.prog, 0, self.seq, idx, fam.encode(), 0)

    def state(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            h.update(p if isinstance(p, bytes) else repr(p).encode())
        self.states.add(int.from_bytes(h.digest(), "little"))

    def fail(self, key, msg):
        n = self.per_key.get(key, 0)
        self.per_key[key] = n + 1
        m = (self.note + ": " if self.note else "") + msg
        if n < 3 and len(self.failures) < self.max_failures:
            self.failures.append(dict(case="%s:%d" % (self.fam, self.idx), key=key, msg=m[:3000]))
        if self.replay:
            print("FAIL %s: %s" % (key, m))
            sys.stdout.flush()

    def check(self, key, ok, what):
        self.comparisons += 1
        if not ok:
            self.fail(key, what() if callable(what) else what)
        return bool(ok)

    def near(self, key, got, want, tol, what):
        """arrays of the same shape, |got-want| <= tol*(1+|want|)"""
        import numpy as np
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.comparisons += max(1, got.size)
        if got.shape != want.shape:
            self.fail(key, "%s: shape %s instead of %s" % (what() if callable(what) else what, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        with np.errstate(invalid="ignore"):
            d = np.abs(got - want)
            ok = (d <= tol * (1 + np.abs(want))) | (got == want)
        if ok.all():
            return True
        i = np.unravel_index(int(np.argmin(ok)), got.shape)
        self.fail(key, "%s: entry %s is %.17g instead of %.17g" % (what() if callable(what) else what, tuple(int(x) for x in i), got[i], want[i]))
        return False


def only(fams):
    """MC_ONLY, see harness/mc.hpp"""
    e = os.environ.get("MC_ONLY")
    if not e:
        return fams
    out = []
    for f in fams:
        for w in e.split(","):
            name, _, n = w.partition("<")
            if f.name.startswith(name[:-1]) if name.endswith("*") else f.name == name:
                f.size = min(f.size, int(n)) if n else f.size
                out.append(f)
                break
    return out


def main(make):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--progress")
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--until")
    ap.add_argument("--deadline", type=float, default=0)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    si, sn = map(int, a.shard.split("/"))
    prog = None
    if a.progress:
        f = open(a.progress, "r+b")
        prog = mmap.mmap(f.fileno(), PROG.size)
    fams = only(make(a.tier == "thorough"))
    if a.list:
        for f in fams:
            print(f.name, f.size)
        return 0
    ctx = Ctx(prog)

    def run_case(f, i):
        ctx.begin(f.name, i)
        try:
            f.run(i, ctx)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " < ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in reversed(tb[-4:]))
            ctx.fail("unexpected-exception", "%s: %s [%s]" % (type(e).__name__, str(e)[:400], where))

    if a.case:
        ctx.replay = True
        fn, _, idx = a.case.rpartition(":")
        for f in fams:
            if f.name == fn and int(idx) < f.size:
                if f.describe:
                    print("CASE %s: %s" % (a.case, f.describe(int(idx))))
                    sys.stdout.flush()
                run_case(f, int(idx))
        print("failures: %d" % len(ctx.failures))
        return 1 if ctx.failures else 0
    ufam, _, uidx = (a.until or "").rpartition(":")
    t0 = time.time()
    cov, samples, complete, stop = {}, [], True, False
    for f in fams:
        n = 0
        for i in range(si, f.size, sn):
            if a.deadline > 0 and (n & 15) == 0 and time.time() - t0 > a.deadline:
                complete = False
                break
            run_case(f, i)
            n += 1
            if len(ctx.failures) >= ctx.max_failures:
                complete, stop = False, True
            if a.until and f.name == ufam and i == int(uidx):
                stop = True
            if stop:
                break
        cov[f.name] = [n, f.size]
        if f.describe and f.size:
            samples.append("%s:%d %s" % (f.name, f.size // 2, f.describe(f.size // 2)))
        if stop:
            break
    if a.out:
        with open(a.out + ".states", "wb") as o:
            array.array("Q", ctx.states).tofile(o)
        with open(a.out, "w") as o:
            json.dump(dict(transitions=ctx.transitions, comparisons=ctx.comparisons, nontrivial=ctx.nontrivial, skipped=ctx.skipped,
                           complete=complete, families=cov, samples=[s[:1500] for s in samples], failures=ctx.failures), o)
    if prog is not None:
        struct.pack_into("=Q", prog, 64, 1)
    return 1 if ctx.failures else 0


class Digits:
    """mixed-radix decoding of a case index"""
    def __init__(self, v):
        self.v = v

    def pick(self, seq):
        n = seq if isinstance(seq, int) else len(seq)
        self.v, r = divmod(self.v, n)
        return r if isinstance(seq, int) else seq[r]


def nseq(n, d, least=1):
    return sum(n ** k for k in range(least, d + 1))


def seq(i, n, least=1):
    k = least
    while i >= n ** k:
        i -= n ** k
        k += 1
    s = []
    for _ in range(k):
        s.append(i % n)
        i //= n
    return s


def import_tinyfk():
    """the package under test, from the build of the working tree, with its own home directory"""
    home = os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "home")
    repo = os.environ.get("MC_REPO", "/repo")
    os.makedirs(os.path.join(home, ".tinyfk"), exist_ok=True)
    for n in ("pr2", "fetch"):
        p = os.path.join(home, ".tinyfk", n + ".urdf")
        if not os.path.exists(p):
            with open(os.path.join(repo, "data", n + ".urdf"), "rb") as f, open(p, "wb") as o:
                o.write(f.read())
    os.environ["HOME"] = home
    import urllib.request

    def refuse(*a, **k):
        raise OSError("no network")
    urllib.request.urlretrieve = refuse
    sys.path.insert(0, os.environ["MC_STAGE"])
    import tinyfk
    return tinyfk
