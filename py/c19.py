"""C19: pickled and copied models equal the original and stay independent, for every history of requests and copies."""
import copy
import os
import pathlib
import pickle

import numpy as np

import mc
import pk
import ref
from ref import FIXED, FLOATING, IGNORE, PLANER, RPY, XYZW

tk = mc.import_tinyfk()
RB = ref.robots()

COPIES = {"pickle": lambda m: pickle.loads(pickle.dumps(m)), "copy": copy.copy, "deepcopy": copy.deepcopy,
          "pickle2": lambda m: pickle.loads(pickle.dumps(m, 2)), "in a list": lambda m: copy.deepcopy([m, m])[1],
          "getstate": lambda m: (lambda n: (n.__setstate__(m.__getstate__()), n)[1])(tk.KinematicModel.__new__(tk.KinematicModel))}


class World:
    def __init__(self, rb):
        self.rb = rb
        self.suts = [pk.Sut(tk, rb)]
        self.arrays, self.lists = [], []

    def give(self, a):
        a = np.array(a, float)
        self.arrays.append(a)
        return a

    def ids(self, l):
        l = list(l)
        self.lists.append(l)
        return l

    def set_q(self, s, joints, k, base):
        r = pk.row(self.rb, k, joints, base)
        s.m.set_q(self.ids(s.jids(joints)), self.give(r), tk.BaseType[base])
        s.c.set(joints, r, base)

    def add(self, s, parent, xyz, rpy):
        name = "new%d" % len(s.c.added)
        s.m.add_new_link(name, s.lids([parent])[0], self.give(xyz), None if rpy is None else self.give(rpy))
        s.c.added.append((name, parent, tuple(xyz), tuple(rpy or (0, 0, 0))))
        s.c.cache = None

    def last(self, s):
        return s.c.added[-1][0] if s.c.added else list(self.rb.links)[-1]

    def rejected(self, ctx, f):
        try:
            f()
        except Exception:
            return
        ctx.fail("rejected", "an ill-formed request was accepted")

    def act(self, op, i, ctx):
        s, mv = self.suts[i], self.rb.movable
        L = list(self.rb.links)
        ctx.step()
        v = 1 if i else 0  # models do different things
        if op == "set all":
            self.set_q(s, mv, 2 * v, FLOATING)
        elif op == "set one":
            self.set_q(s, mv[:1], 1 + v, PLANER)
        elif op == "set last":
            self.set_q(s, mv[-1:], 2 - v, FIXED)
        elif op == "fk":
            rows = [self.give(pk.row(self.rb, k, mv[::-1], FLOATING)) for k in (2, 1 - v)]
            s.m.solve_fk(rows, self.ids(s.lids(L)), self.ids(s.jids(mv[::-1])), base_type=tk.BaseType.FLOATING)
            s.configs([np.array(r) for r in rows], mv[::-1], FLOATING)
        elif op == "com":
            rows = [self.give(pk.row(self.rb, v, mv[:1], PLANER))]
            s.m.solve_com_fk(rows, self.ids(s.jids(mv[:1])), base_type=tk.BaseType.PLANER)
            s.configs(rows, mv[:1], PLANER)
        elif op == "inertia":
            q = self.give(pk.row(self.rb, 1 + v, mv[-1:], FIXED))
            s.m.compute_total_inertia_matrix(q, self.ids(s.jids(mv[-1:])))
            s.configs([q], mv[-1:], FIXED)
        elif op == "dist":
            q = self.give(pk.row(self.rb, 1 - v, mv, FIXED))
            s.m.compute_inter_link_sqdists([q], [tuple(s.lids([L[0], self.last(s)]))], self.ids(s.jids(mv)))
            s.configs([q], mv, FIXED)
        elif op == "add":
            self.add(s, self.last(s), (0.1 + v, 0.2, -0.3), (0.3, -0.2, 0.5 + v))
        elif op == "add plain":
            self.add(s, L[min(1, len(L) - 1)], (0.5, 0.1 - v, 0.2), None)
        elif op == "rejected":
            self.rejected(ctx, lambda: s.m.add_new_link(L[0], 0, self.give((1, 2, 3)), None))
            self.rejected(ctx, lambda: s.m.add_new_link("other", 0, self.give((1, 2)), None))
            self.rejected(ctx, lambda: s.m.set_q(self.ids(s.jids(mv)), self.give(pk.row(self.rb, 1, mv, FIXED)), tk.BaseType.FLOATING))
        elif op == "overwrite":
            for a in self.arrays:
                a[...] = 9.75
            for l in self.lists:
                l[:] = [0]
        else:
            m = COPIES[op](s.m)
            self.suts.append(pk.Sut(tk, self.rb, m, s.c.copy()))


def plans(depth, maxm, ops, copies):
    """sequences of (operation, model) with at least one copy"""
    out = []

    def go(pre, n, done):
        if done:
            out.append(tuple(pre))
        if len(pre) == depth:
            return
        for i in range(n):
            for o in ops:
                if o == "overwrite" and i:
                    continue
                go(pre + [(o, i)], n, done)
            if n < maxm:
                for o in copies:
                    go(pre + [(o, i)], n + 1, True)
    go([], 1, False)
    return out


NAMES = ["b", "b\n  c", "b  c", " b", "b ", "\tb", "b\n", "\nb\n\n", "b&quot;c", "b&apos;c", "b&amp;lt;c", "b&lt;c>", "b/c:d.e-f", "\u00fc\u4e2d\U0001f916", "b&#10;c", "b&#9;c", "B" * 300, "a", "b\\n", "b%s{}", "b\r\nc",
         "b\n\nc", "b\n\t\tc", "b -- c"]
LAYOUTS = ["%s", "<?xml version='1.0' encoding='UTF-8'?>\n%s", "\n\n  %s\n\n", "\ufeff%s", "<!-- a\n  <b>\n -->%s<!-- c -->", "\t%s\r\n"]
TEXT = ("<robot name='r'>\n  <link name=\"a0\">\n    <inertial><mass value='\n 2.5 '/><origin xyz='0.1\n   0.2  0.30000000000000004'/>"
        "<inertia ixx='1' ixy='0' ixz='0' iyy='1' iyz='0' izz='1'/></inertial></link>\n  <link name=\"@\"/><link name=\"c0\"/>"
        "<joint name=\"#\" type='revolute'>\n<parent link=\"a0\"/><child link=\"@\"/><axis xyz='0\n  0\n  1'/>\n<origin xyz='0.123456789012345678 1e-7\n\t-3'/>"
        "<limit lower='-1.25' upper='2e0' velocity='1' effort='3'/></joint>"
        "<joint name='j2' type='prismatic'><parent link=\"@\"/><child link='c0'/><axis xyz='1 0 0'/><limit lower='0' upper='1' velocity='1' effort='3'/></joint></robot>")


def answers(m):
    """everything a user can ask"""
    r = m._robot
    ln, jn = r.get_link_names(), m.get_joint_names()
    jids, lids = m.get_joint_ids(jn), m.get_link_ids(ln)
    out = [ln, jn, jids, lids, m.get_joint_limits(jids), m.root_link_name, m.total_mass, list(m.get_q(jids, tk.BaseType.FLOATING))]
    q = m.get_q(jids)
    for rot in (tk.RotationType.RPY, tk.RotationType.XYZW):
        P, J = m.solve_fk([q], lids, jids, rot_type=rot, base_type=tk.BaseType.FIXED, with_jacobian=True)
        out += [P.tolist(), J.tolist()]
    P, J = m.solve_com_fk([q], jids, with_jacobian=True)
    return out + [P.tolist(), J.tolist(), m.compute_total_inertia_matrix(q, jids).tolist()]


def text_family():
    cases = [(a, b, l, src, how, hist) for a in NAMES for b in (["j1"] + NAMES[1:3] if a == "b" else ["j1", a + "j"]) for l in LAYOUTS
             for src in ("text", "file", "path object", "file gone") for how in COPIES for hist in range(3)]

    def run(i, ctx):
        a, b, l, src, how, hist = cases[i]
        ctx.note = repr(cases[i])
        text = l % TEXT.replace("@", a).replace("#", b)
        ctx.step()
        p = os.path.join(os.environ["MC_SCRATCH"], "t19-%d.urdf" % os.getpid())
        if src == "text":
            m = tk.KinematicModel(xml_text=text)
        else:
            with open(p, "w", newline="", encoding="utf-8") as f:
                f.write(text)
            m = tk.KinematicModel(urdfpath=pathlib.Path(p) if src == "path object" else p)
            if src == "file gone":
                os.remove(p)
            elif hist == 2:
                with open(p, "w") as f:
                    f.write("<robot/>")
        jids = m.get_joint_ids(m.get_joint_names())
        if hist:
            m.add_new_link("new " + m._robot.get_link_names()[1], m.get_link_ids(["c0"])[0], [0.25, 0.5, 1], [0.5, 0, -0.25])
            m.set_q(jids, np.array([0.75, 0.5, 1, 2, 3, 0.1, 0.2, 0.3]), tk.BaseType.FLOATING)
        c = COPIES[how](m)
        cs = [c]
        if hist == 2:
            cs = [COPIES[how](c), COPIES["copy"](m)]
        x = answers(m)
        for y in map(answers, cs):
            ctx.check("texts", x[:7] == y[:7], lambda: "the copy has %s instead of %s" % (y[:7], x[:7]))
            for u, v in zip(x[7:], y[7:]):
                ctx.near("texts", np.array(v, float), np.array(u, float), 1e-9, "answer of the copy")
        if os.path.exists(p):
            os.remove(p)
        ctx.state("text", i)
    return mc.Family("texts", len(cases), run, lambda i: repr(cases[i]))


def value_family():
    """copies keep every value exactly"""
    V = [0.0, -0.0, 1e-300, -1e-9, 2.5, np.pi, -np.pi, 3.2, -7.0, 100.0, -1234.5, 1e6, 0.1 + 0.2, 1 / 3]
    cases = [(n, a, v, how, twice) for n in RB for a in range(len(RB[n].movable) + 6) for v in range(len(V)) for how in COPIES for twice in (False, True)]

    def run(i, ctx):
        n, a, v, how, twice = cases[i]
        rb = RB[n]
        jl = rb.movable
        if a == len(jl) + 4 and abs(np.cos(V[v])) < 0.03:
            ctx.skipped += 1
            return
        s = pk.Sut(tk, rb)
        ctx.note = repr(cases[i])
        q = pk.row(rb, 0, jl, FLOATING)
        q[a] = V[v]
        if twice:
            s.add(ctx, "n", list(rb.links)[-1], [V[v], 0.2, 0.3], [0.2, 0.1, V[v] if abs(V[v]) < 9 else 0.5])
        s.set_q(ctx, jl, q, FLOATING)
        t = pk.Sut(tk, rb, COPIES[how](s.m), s.c.copy())
        if twice:
            t = pk.Sut(tk, rb, COPIES[how](t.m), s.c.copy())
            t.add(ctx, "m", "n", [0.1, V[v], 0.3], None)
        for k, x in enumerate((s, t)):
            x.full(ctx, "values", "model %d: " % k)
        ctx.state("v", i)
    return mc.Family("values", len(cases), run, lambda i: repr(cases[i]))


def large_family():
    """a large robot with many added links"""
    cases = [(how, adds, k) for how in COPIES for adds in (0, 1, 70) for k in range(2)]

    def run(i, ctx):
        how, adds, k = cases[i]
        rb = ref.big()
        s = pk.Sut(tk, rb)
        jl, L = rb.movable, list(rb.links)
        ctx.note = repr(cases[i])
        for a in range(adds):
            s.add(ctx, "n%d" % (a * 37 % 71), s.c.added[-1][0] if a % 3 == 1 else L[a * 7 % 60], [0.1, 0.01 * a, 0.3], [0.2, 0.1, 0.01 * a])
        s.set_q(ctx, jl, pk.row(rb, k, jl, FLOATING), FLOATING)
        t = pk.Sut(tk, rb, COPIES[how](s.m), s.c.copy())
        u = pk.Sut(tk, rb, COPIES[how](t.m), s.c.copy())
        u.add(ctx, "z", L[3], [1, 2, 3], None)
        t.set_q(ctx, jl[::2], pk.row(rb, 1 - k, jl[::2], PLANER), PLANER)
        for x in (s, t, u):
            x.full(ctx, "large", "")
        ctx.state("large", i)
    return mc.Family("large", len(cases), run, lambda i: repr(cases[i]))


def make(thorough):
    full = ["set all", "set one", "set last", "fk", "com", "inertia", "dist", "add", "add plain", "rejected", "overwrite"]
    P1 = plans(4 if thorough else 3, 3, full, list(COPIES))
    P2 = plans(5 if thorough else 4, 3, ["set all", "fk", "add", "overwrite"] + (["rejected", "com"] if thorough else []), ["pickle", "copy", "deepcopy"])
    P3 = plans(6, 5, ["add", "set one"], ["copy"] if not thorough else ["copy", "pickle"])
    P3 = [p for p in P3 if len(p) > 4]

    def fam(name, robots, P):
        def run(i, ctx):
            n, p = robots[i % len(robots)], P[i // len(robots)]
            w = World(RB[n])
            ctx.note = "%s %s" % (n, list(p))
            for o, k in p:
                w.act(o, k, ctx)
            for k, s in enumerate(w.suts):
                s.full(ctx, "state", "model %d: " % k)
            ctx.nontrivial += 1
            ctx.state(n, tuple((s.c.key()) for s in w.suts))
        return mc.Family(name, len(P) * len(robots), run, lambda i: "%s %s" % (robots[i % len(robots)], list(P[i // len(robots)])))
    return [fam("all", ["chain", "nomass_root"], P1), fam("long", ["tree"], P2), fam("lineage", ["chain"], P3), text_family(), value_family(), large_family()]


if __name__ == "__main__":
    raise SystemExit(mc.main(make))
