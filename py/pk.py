"""A model of the package together with its reference configuration; every request is compared."""
import itertools

import numpy as np

import mc
import ref
from ref import FIXED, FLOATING, IGNORE, NBASE, NROT, PLANER, RPY, XYZW

TOL = 1e-9
ROTS = (IGNORE, RPY, XYZW)
BASES = (FIXED, PLANER, FLOATING)
_memo = {}


def memo(key, f):
    v = _memo.get(key)
    if v is None:
        if len(_memo) > 60000:
            _memo.clear()
        v = _memo[key] = f()
    return v


def ckey(c):
    return (c.robot.text, tuple(c.q.values()), tuple(c.base), tuple((a, b, tuple(p), tuple(r)) for a, b, p, r in c.added))


def form(rows, kind):
    """the same batch as ... """
    if kind == 0:
        return [np.array(r) for r in rows]
    if kind == 1:
        return np.array(rows)
    if kind == 2:
        return [[float(x) for x in r] for r in rows]
    if kind == 3:  # column-major
        return np.asfortranarray(np.array(rows))
    a = np.zeros((2 * len(rows), 2 * max(1, len(rows[0]))))  # strided view
    a[::2, ::2][:, :len(rows[0])] = np.array(rows)
    a[1::2] = 77
    return a[::2, ::2][:, :len(rows[0])]


NFORMS = 5


class Sut:
    def __init__(self, tk, robot, model=None, cfg=None):
        self.tk, self.robot = tk, robot
        self.m = model if model is not None else tk.KinematicModel(xml_text=robot.text)
        self.c = cfg if cfg is not None else ref.Config(robot)
        self._l, self._j = {}, {}

    def lids(self, names):
        for n in names:
            if n not in self._l:
                self._l[n] = self.m.get_link_ids([n])[0]
        return [self._l[n] for n in names]

    def jids(self, names):
        for n in names:
            if n not in self._j:
                self._j[n] = self.m.get_joint_ids([n])[0]
        return [self._j[n] for n in names]

    def bt(self, b):
        return self.tk.BaseType[b]

    # ------------------------------------------------------------------ requests
    def configs(self, rows, joints, base):
        """configurations the rows of a batch stand for; leaves the reference in the last one"""
        out = []
        for r in rows:
            self.c.set(joints, r, base)
            out.append(self.c.copy())
        return out

    def want_pose(self, c, link, rot):
        return memo(("p", ckey(c), link, rot), lambda: c.value(link, rot))

    def want_jac(self, c, link, joints, rot, base, quat):
        def f():
            q = ref.matrix_quat(c.poses()[link][1])
            return q, ref.select_base(c.jacobian(link, joints, rot, base != FIXED, q), len(joints), base)
        q, J = memo(("j", ckey(c), link, tuple(joints), rot, base), f)
        if rot == XYZW and q @ quat < 0:
            J = np.vstack([J[:3], -J[3:]])
        return J

    def solve_fk(self, ctx, rows, links, joints, rot, base, jac, fm=0, key="fk", qs=None):
        lids, jids = self.lids(links), self.jids(joints)
        cs = self.configs(rows, joints, base)
        P, J = self.m.solve_fk(form(rows, fm) if qs is None else qs, lids, jids, self.tk.RotationType[rot], self.bt(base), jac)
        ctx.step()
        d = 3 + NROT[rot]
        n, k = len(rows), len(links)
        if not ctx.check(key, P.shape == (n * k, d), lambda: "poses have shape %s" % (P.shape,)):
            return None
        w = len(joints) + NBASE[base]
        if jac and not ctx.check(key, J.shape == (n * k * d, w), lambda: "Jacobian has shape %s" % (J.shape,)):
            return None
        for i, c in enumerate(cs):
            for j, l in enumerate(links):
                row = P[i * k + j]
                want = self.want_pose(c, l, rot)
                if rot == RPY and not c.regular(l):
                    ctx.skipped += 1
                    ctx.near(key, row[:3], want[:3], TOL, lambda: "position of %s in configuration %d" % (l, i))
                    continue
                if rot == RPY:  # half turns may come with either sign
                    e = want.copy()
                    for x in (3, 5):
                        if abs(abs(e[x]) - np.pi) < 1e-6 and abs(abs(row[x]) - np.pi) < 1e-6:
                            e[x] = row[x]
                    want = e
                if rot == XYZW and want[3:] @ row[3:] < 0:
                    want = np.hstack([want[:3], -want[3:]])
                ctx.near(key, row, want, TOL, lambda: "pose of %s in configuration %d" % (l, i))
                if jac:
                    h = (i * k + j) * d
                    ctx.near(key, J[h:h + d], self.want_jac(c, l, joints, rot, base, row[3:] if rot == XYZW else None), 1e-8,
                             lambda: "Jacobian of %s in configuration %d" % (l, i))
        return P, J

    def sqdists(self, ctx, rows, pairs, joints, base, jac, fm=0, key="sqdists", rel=False, qs=None):
        ids = [tuple(self.lids(p)) for p in pairs]
        cs = self.configs(rows, joints, base)
        V, J = self.m.compute_inter_link_sqdists(form(rows, fm) if qs is None else qs, ids, self.jids(joints), self.bt(base), jac)
        ctx.step()
        n, k, w = len(rows), len(pairs), len(joints) + NBASE[base]
        if not ctx.check(key, V.shape == (n * k,), lambda: "values have shape %s" % (V.shape,)):
            return None
        if jac and not ctx.check(key, J.shape == (n * k, w), lambda: "gradients have shape %s" % (J.shape,)):
            return None

        def want(c, a, b):
            d = c.poses()[a][0] - c.poses()[b][0]
            Ja, Jb = (c.twist(x, joints, base != FIXED)[:3] for x in (a, b))
            return d @ d, ref.select_base((2 * d @ (Ja - Jb))[None, :], len(joints), base)[0]
        for i, c in enumerate(cs):
            for j, (a, b) in enumerate(pairs):
                v, g = memo(("s", ckey(c), a, b, tuple(joints), base), lambda: want(c, a, b))
                if rel:  # rounding of the positions themselves counts
                    pa, pb = c.poses()[a][0], c.poses()[b][0]
                    e = 1e-9 * np.sqrt(v) + 1e-14 * (np.abs(pa).max() + np.abs(pb).max() + 1)
                    ctx.check(key, abs(V[i * k + j] - v) <= 2 * np.sqrt(v) * e + e * e, lambda: "distance of %s and %s in configuration %d is %.17g instead of %.17g" % (a, b, i, V[i * k + j], v))
                    if jac:
                        e = 1e-8 * np.abs(g).max(initial=0) + 1e-13 * (np.abs(pa).max() + np.abs(pb).max() + 1) ** 2
                        ctx.check(key, (np.abs(J[i * k + j] - g) <= e).all(), lambda: "gradient of %s and %s in configuration %d is %s instead of %s" % (a, b, i, J[i * k + j], g))
                    continue
                ctx.near(key, V[i * k + j], v, TOL, lambda: "distance of %s and %s in configuration %d" % (a, b, i))
                if jac:
                    ctx.near(key, J[i * k + j], g, 1e-8, lambda: "gradient of %s and %s in configuration %d" % (a, b, i))
        return V, J

    def com(self, ctx, rows, joints, base, jac, forces=None, fm=0, key="com", qs=None):
        """forces: list of (link, force), or None for no argument"""
        cs = self.configs(rows, joints, base)
        kw = {}
        if forces is not None:
            kw = dict(action_link_ids=self.lids([l for l, _ in forces]), action_forces=[f for _, f in forces])
        P, J = self.m.solve_com_fk(form(rows, fm) if qs is None else qs, self.jids(joints), base_type=self.bt(base), with_jacobian=jac, **kw)
        ctx.step()
        n, w = len(rows), len(joints) + NBASE[base]
        if not ctx.check(key, P.shape == (n, 3), lambda: "centres of mass have shape %s" % (P.shape,)):
            return None
        if jac and not ctx.check(key, J.shape == (3 * n, w), lambda: "Jacobian has shape %s" % (J.shape,)):
            return None
        fl = tuple(forces or ())

        def want(c):
            m = self.robot.mass
            s, S = m * c.com(), m * c.com_jacobian(joints, base != FIXED)
            for l, f in fl:
                m += f
                s = s + f * c.poses()[l][0]
                S = S + f * c.twist(l, joints, base != FIXED)[:3]
            return s / m, ref.select_base(S / m, len(joints), base)
        for i, c in enumerate(cs):
            p, S = memo(("c", ckey(c), tuple(joints), base, fl), lambda: want(c))
            ctx.near(key, P[i], p, TOL, lambda: "centre of mass in configuration %d" % i)
            if jac:
                ctx.near(key, J[3 * i:3 * i + 3], S, 1e-8, lambda: "Jacobian of the centre of mass in configuration %d" % i)
        return P, J

    def inertia(self, ctx, row, joints, key="inertia"):
        self.c.set(joints, row)
        I = self.m.compute_total_inertia_matrix(row, self.jids(joints))
        ctx.step()
        ctx.near(key, I, memo(("i", ckey(self.c)), self.c.inertia), 1e-8, "total inertia")
        return I

    def set_q(self, ctx, joints, row, base):
        self.m.set_q(self.jids(joints), row, self.bt(base))
        self.c.set(joints, row, base)
        ctx.step()

    def add(self, ctx, name, parent, xyz, rpy=None):
        self.m.add_new_link(name, self.lids([parent])[0], xyz, rpy)
        self.c.added.append((name, parent, tuple(float(x) for x in xyz), tuple(float(x) for x in (rpy if rpy is not None else (0, 0, 0)))))
        self.c.cache = None
        ctx.step()

    # ------------------------------------------------------------------ state
    def check_state(self, ctx, key, what="", poses=True, masses=False):
        """joint angles, base pose, links and poses, by requests which change nothing"""
        c, m = self.c, self.m
        names = self.robot.movable
        ids = self.jids(names)
        want = np.array([c.q[j] for j in names])
        ctx.near(key, m.get_q(ids), want, 0, lambda: what + "joint angles")
        rpy = ref.matrix_rpy(ref.rpy_matrix(*c.base[3:]))
        got = np.asarray(m.get_q(ids, self.bt(FLOATING)))
        if ctx.check(key, got.shape == (len(ids) + 6,), lambda: what + "get_q with floating base has shape %s" % (got.shape,)):
            ctx.near(key, got[:len(ids)], want, 0, lambda: what + "joint angles")
            g = got[len(ids):]
            ctx.near(key, g[:3], c.base[:3], 1e-12, lambda: what + "base position")
            if abs(np.sin(c.base[4])) < 0.9997:
                ctx.near(key, (g[3:] - rpy + 1) % (2 * np.pi), np.ones(3), TOL, lambda: what + "base angles")
            p = np.asarray(m.get_q(ids, self.bt(PLANER)))
            ctx.near(key, p, np.hstack([got[:len(ids)], g[[0, 1, 5]]]), 1e-12, lambda: what + "get_q with planar base")
        links = list(self.robot.links) + [a[0] for a in c.added]
        if poses:
            # through the lower layer: no setter is involved
            lids = self.lids(links)
            P, _ = m._robot.solve_forward_kinematics([[]], lids, [], self.tk.RotationType.IGNORE.value, False, False, False)
            W = memo(("all", ckey(c)), lambda: np.array([c.poses()[l][0] for l in links]))
            ctx.near(key, P, W, TOL, lambda: what + "link positions")
        n_all = len(links) + sum(1 for d in self.robot.links.values() if d)
        if hasattr(m._robot, "get_link_names"):
            ctx.check(key, len(m._robot.get_link_names()) == n_all, lambda: what + "number of links is %d instead of %d" % (len(m._robot.get_link_names()), n_all))
        if masses:
            ctx.near(key, m.total_mass, self.robot.mass, 1e-12, lambda: what + "total mass")

    def full(self, ctx, key, what=""):
        """everything, including solvers (leaves the configuration as it is)"""
        self.check_state(ctx, key, what, masses=True)
        names = self.robot.movable
        links = list(self.robot.links) + [a[0] for a in self.c.added]
        row = np.array([self.c.q[j] for j in names])
        old = ctx.note
        ctx.note = (old + " " + what).strip()
        self.solve_fk(ctx, [row], links, names, RPY, FIXED, True, key=key)
        self.com(ctx, [row], names, FIXED, True, key=key)
        self.inertia(ctx, row, names, key=key)
        ctx.note = old


# configurations per robot: joint values by movable joint, base
QV = [(0.3, -0.7, 0.4, 0.9), (-1.2, 0.45, -0.6, 0.15), (2.4, 3.9, 0.25, -0.8)]
BV = [(0.5, -0.4, 0.3, 0.2, -0.3, 0.6), (-1.5, 2.0, -0.7, 3.5, 0.8, -4.0), (0.1, 0.2, 0.9, -0.4, 2.2, 1.3)]


def row(robot, k, joints, base):
    q = {j: QV[k][a % 4] * (1 - 0.02 * (a // 4)) for a, j in enumerate(robot.movable)}
    r = [q[j] for j in joints]
    b = BV[k]
    if base == PLANER:
        r += [b[0], b[1], b[5]]
    elif base == FLOATING:
        r += list(b)
    return np.array(r, float)


def joint_lists(robot):
    """subsets and orders of the movable joints"""
    m = robot.movable
    L = [m, m[::-1], m[:1], m[1:], m[-1:] + m[:1] if len(m) > 1 else m, []]
    out = []
    for x in L:
        if x not in out:
            out.append(x)
    return out


def sequences(n, thorough):
    """index lists: up to length 2, and of length 3 all (thorough) or the permutations"""
    s = [[a] for a in range(n)] + [[a, b] for a in range(n) for b in range(n)]
    s += [[a, b, c] for a in range(n) for b in range(n) for c in range(n) if thorough or len({a, b, c}) == 3]
    return s


# ---------------------------------------------------------------------- long and repetitive batches
LENGTHS = (4, 9, 17, 33, 65, 130, 257, 300)
PATTERNS = 5


def long_rows(robot, joints, base, n, pattern):
    """batches whose rows are all different, mostly equal, equal to the last but one, differ in one coordinate, or return"""
    r = [row(robot, k, joints, base) for k in range(3)]
    w = len(r[0])

    def one(k):
        d = np.array([((k * 7 + 3 * a) % 29 - 14) * 0.11 for a in range(w)])
        if base == FLOATING:
            d[w - 2] = ((k * 5) % 17 - 8) * 0.15
        return d
    out = []
    for k in range(n):
        if pattern == 0:
            x = one(k)
        elif pattern == 1:
            x = r[1] if k % 8 == 5 or k == n - 2 else r[0]
        elif pattern == 2:
            x = r[k % 2] if k < n - 1 else r[2]
        elif pattern == 3:
            x = out[-1].copy() if out else r[0].copy()
            if w:
                x[k % w] += (1e-6, 0.3, -0.2)[k % 3]
        else:
            x = one(min(k, n - 1 - k))
        out.append(np.array(x, float))
    return out


def neighbours(robot, joints, base):
    """pairs of configurations which differ little, or whose difference a sloppy comparison misses"""
    out = []
    for k in range(2):
        r = row(robot, k, joints, base)
        nj = len(joints)
        for a in range(len(r)):
            for d in (1e-6, -1e-4, 0.25) + ((2 * np.pi, -2 * np.pi) if a < nj else ()):
                x = r.copy()
                x[a] += d
                out += [(r, x), (x, r)]
        out += [(r, -r), (r, r[::-1].copy() if base == FIXED else np.hstack([r[:nj][::-1], r[nj:]])), (0 * r, r), (r, 0 * r)]
    return out


# every pattern of zero and non-zero coordinates: two sets of values, and all the same value
def sparse_cases(RB, thorough):
    return [(n, base, mask, k) for n in RB for base in BASES for mask in range(1 << (len(RB[n].movable) + NBASE[base])) for k in range(3) if k < 2 or thorough or mask % 5 == 3]


def sparse_row(robot, base, mask, k):
    r = row(robot, k, robot.movable, base) if k < 2 else np.full(len(robot.movable) + NBASE[base], -0.5)
    for a in range(len(r)):
        if not mask >> a & 1:
            r[a] = 0
    return r


def large(ctx, s, i):
    """a request on the robot with many links and joints: joints, links and base, rows"""
    rb = s.robot
    mv, L = rb.movable, list(rb.links)
    jl = (mv, mv[::-1], mv[::2] + mv[1::2], mv[-9:], mv[::3] * 1)[i % 5]
    base = BASES[i // 5 % 3]
    s.add(ctx, "added", L[i % 60], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
    s.set_q(ctx, mv, row(rb, 2, mv, FLOATING), FLOATING)
    return jl, (L[i % 7::3] + ["added"] + L[i % 2::2])[::-1 if i % 4 == 1 else 1], base, [row(rb, k, jl, base) for k in (0, 1, 0)]


NLARGE = 15


# joint lists in which joints occur more than once, with the same value each time
def repeats(robot):
    mv = robot.movable
    m = mv[:2] + mv[-1:]
    L = [list(x) for n in (2, 3) for x in itertools.product(range(len(m)), repeat=n)]
    L = [[m[a] for a in x] for x in L]
    L += [mv + mv, mv + mv[::-1], (mv * 40)[:90], [mv[-1]] * 33]
    out = []
    for x in L:
        if len(set(x)) < len(x) and x not in out:
            out.append(x)
    return out


def repeated_row(robot, k, joints, base):
    v = dict(zip(robot.movable, row(robot, k, robot.movable, FIXED)))
    return np.hstack([[v[j] for j in joints], row(robot, k, [], base)])


# batches with more results than 8 or 16 bits can count: (rows, items), the rows and items repeat with a period
HUGE = ((70001, 1), (33000, 2), (301, 257), (1, 70001), (3, 22000), (257, 3))


def huge(few, n):
    return [few[k % len(few)] for k in range(n)]


# ways to write a batch of whole numbers
def typed(rows, kind):
    a = np.array(rows)
    return [lambda: a.astype(np.int64), lambda: a.astype(np.int32), lambda: a.astype(np.float32), lambda: a.astype(np.int8), lambda: [[int(x) for x in r] for r in rows],
            lambda: [[int(x) if (j + k) % 2 else float(x) for j, x in enumerate(r)] for k, r in enumerate(rows)], lambda: [tuple(r) for r in rows],
            lambda: [r.astype(np.int64) if k else r for k, r in enumerate(a)], lambda: a[::-1][::-1], lambda: (lambda b: (b.setflags(write=False), b)[1])(a.copy()), lambda: a.astype(">f8")][kind]()


NTYPED = 11


def whole_rows(robot, joints, base, n):
    w = len(joints)
    out = []
    for k in range(n):
        r = [(3 * a + 2 * k) % 7 - 3 for a in range(w)]
        r += [] if base == FIXED else [2, -1 - k, 1] if base == PLANER else [1, -2, 3 + k, -1, 1, 2 - k]
        out.append(np.array(r, float))
    return out
