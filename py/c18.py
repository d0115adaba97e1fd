"""C18: what is set is read back, whatever the history; a planar base is a floating base at zero height, roll and pitch."""
import numpy as np

import mc
import pk
import ref
from pk import BASES, ROTS
from ref import FIXED, FLOATING, IGNORE, NBASE, PLANER, RPY, XYZW

tk = mc.import_tinyfk()
RB = ref.robots()
PI = np.pi
# bases: the values expected when read back are the same up to whole turns where pitch is principal
BASEV = [(0.5, -0.4, 0.3, 0.2, -0.3, 0.6), (-1.5, 2.0, -0.7, 3.5, 0.8, -4.0), (0.1, 0.2, 0.9, -0.4, 2.2, 1.3), (0, 0, 0, 0, 0, 0), (7, 8, 9, 0, 0, 3.1), (1, 2, 3, -3.0, 1.4, -3.1), (0.25, 0, -1, 0, -1.4, 0)]


def vals(rb, k, jl, base):
    r = list(pk.row(rb, k % 3, jl, FIXED))
    b = BASEV[k % len(BASEV)]
    return np.array(r + ([b[0], b[1], b[5]] if base == PLANER else list(b) if base == FLOATING else []), float)


def wrap(a):
    return (np.asarray(a) + PI) % (2 * PI) - PI


def make(thorough):
    OPS = {}
    for n in RB:
        rb = RB[n]
        o = [("set", jl, base, k) for jl in pk.joint_lists(rb) for base in BASES for k in range(2)]
        o += [("set", rb.movable, FLOATING, k) for k in range(2, len(BASEV))] + [("set", rb.movable, PLANER, k) for k in (2, 4)]
        o += [("fk", rb.movable[::-1], base, 2) for base in BASES] + [("fk2", rb.movable[:1], base, 0) for base in BASES]
        o += [("com", rb.movable[:1], base, 1) for base in BASES] + [("dist", rb.movable, base, 1) for base in BASES]
        o += [("inertia", rb.movable, FIXED, 2), ("add",), ("clear",), ("pose", (0.4, 0.3, 0.2, -0.1, 0.6, 2.9))]
        OPS[n] = o
    depth = 3 if thorough else 2
    hist = [(n, i) for n in RB for i in range(mc.nseq(len(OPS[n]), depth))]
    # longer histories of fewer operations
    SEL = {n: [o for o in OPS[n] if o[0] in ("add", "clear", "pose", "fk2", "com") or (o[0] == "set" and o[3] < 2 and o[1] in (RB[n].movable, RB[n].movable[-1:] + RB[n].movable[:1]) and o[3] == (o[2] == PLANER))] for n in RB}
    ldepth = 5 if thorough else 4
    longh = [(n, i + mc.nseq(len(SEL[n]), depth - 1)) for n in RB for i in range(mc.nseq(len(SEL[n]), ldepth) - mc.nseq(len(SEL[n]), depth - 1))]

    def apply(s, op, ctx, step):
        rb = s.robot
        L = list(rb.links)
        if op[0] == "add":
            return s.add(ctx, "new%d" % step, L[-1], [0.1, 0.3, -0.2], [0.2, 0.1, 0.5])
        if op[0] == "clear":
            return s.m.clear_cache()
        if op[0] == "pose":
            s.m._robot.set_base_pose(list(op[1]))
            s.c.base = np.array(op[1])
            s.c.cache = None
            return
        _, jl, base, k = op
        v = vals(rb, k, jl, base)
        if op[0] == "set":
            s.set_q(ctx, jl, v if k & 1 else [float(x) for x in v], base)
        elif op[0] == "fk":
            s.solve_fk(ctx, [v], [L[-1]], jl, RPY, base, True, key="solve")
        elif op[0] == "fk2":
            s.solve_fk(ctx, [vals(rb, 1, jl, base), v], L[:2], jl, XYZW, base, False, key="solve")
        elif op[0] == "com":
            s.com(ctx, [v], jl, base, True, key="solve")
        elif op[0] == "dist":
            s.sqdists(ctx, [v], [(L[0], L[-1])], jl, base, True, key="solve")
        else:
            s.inertia(ctx, v, jl, key="solve")

    def readback(s, ctx, jl, base, v, what):
        q = np.asarray(s.m.get_q(s.jids(jl), tk.BaseType[base]))
        n = len(jl)
        if not ctx.check("round-trip", q.shape == (n + NBASE[base],), lambda: "%s: read back %s values" % (what, q.shape)):
            return
        ctx.near("round-trip", q[:n], v[:n], 0, lambda: what + ": joint angles")
        if base == PLANER:
            ctx.near("round-trip", q[n:n + 2], v[n:n + 2], 1e-12, lambda: what + ": base position")
            ctx.check("round-trip", abs(wrap(q[n + 2] - v[n + 2])) < 1e-9 and abs(q[n + 2]) < PI + 1e-9, lambda: "%s: base angle %g instead of %g" % (what, q[n + 2], v[n + 2]))
        elif base == FLOATING:
            ctx.near("round-trip", q[n:n + 3], v[n:n + 3], 1e-12, lambda: what + ": base position")
            a = v[n + 3:]
            if abs(a[1]) > PI / 2:
                a = np.array([a[0] + PI, PI - a[1], a[2] + PI])
            ctx.check("round-trip", (abs(wrap(q[n + 3:] - a)) < 1e-9).all() and (abs(q[n + 3:]) < PI + 1e-9).all() and abs(q[n + 4]) < PI / 2 + 1e-9, lambda: "%s: base angles %s instead of %s" % (what, q[n + 3:], wrap(a)))

    def decode(i):
        n, k = hist[i]
        return n, [OPS[n][o] for o in mc.seq(k, len(OPS[n]))]

    def ldecode(i):
        n, k = longh[i]
        return n, [SEL[n][o] for o in mc.seq(k, len(SEL[n]))]

    def run(i, ctx, dec=decode):
        n, ops = dec(i)
        rb = RB[n]
        s = pk.Sut(tk, rb)
        for t, op in enumerate(ops):
            ctx.note = "%s %s" % (n, ops[:t + 1])
            apply(s, op, ctx, t)
            if op[0] == "set":
                readback(s, ctx, op[1], op[2], vals(rb, op[3], op[1], op[2]), "immediately")
            # every joint list and base type, also those which were not set
            for jl in pk.joint_lists(rb):
                got = np.asarray(s.m.get_q(s.jids(jl)))
                ctx.near("unlisted", got, [s.c.q[j] for j in jl], 0, lambda: "joint angles %s" % jl)
            s.check_state(ctx, "state", poses=(t + 1 == len(ops)))
        ctx.nontrivial += 1
        ctx.state(n, s.c.key())

    F = [mc.Family("histories", len(hist), run, lambda i: "%s %s" % decode(i)),
         mc.Family("long", len(longh), lambda i, c: run(i, c, ldecode), lambda i: "%s %s" % ldecode(i))]

    # special values at every place: nothing is wrapped, clipped or rounded
    V = [0.0, -0.0, 1e-300, -1e-9, 2.5, -2.5, PI, -PI, 3.2, -3.2, 2 * PI, -2 * PI, 7.0, -9.5, 100.0, -1234.5, 1e6, 0.1 + 0.2, 1 / 3, float(np.float32(0.7)), 5]
    places = [(n, base, a, v, how) for n in RB for base in BASES for a in range(len(RB[n].movable) + NBASE[base]) for v in range(len(V)) for how in range(5)]

    def run_v(i, ctx):
        n, base, a, v, how = places[i]
        rb = RB[n]
        jl, L = rb.movable, list(rb.links)
        s = pk.Sut(tk, rb)
        ctx.note = str(places[i])
        s.set_q(ctx, jl, vals(rb, 1, jl, FLOATING), FLOATING)
        q = vals(rb, 0, jl, base)
        q[a] = V[v]
        if a == len(jl) + 4 and abs(np.cos(V[v])) < 0.03:
            ctx.skipped += 1
            return
        if how == 0:
            s.set_q(ctx, jl, q, base)
        elif how == 1:
            s.solve_fk(ctx, [q], [L[-1]], jl, RPY, base, True, key="solve")
        elif how == 2:
            s.com(ctx, [vals(rb, 2, jl, base), q], jl, base, False, key="solve")
        elif how == 3:
            s.sqdists(ctx, [q], [(L[0], L[-1])], jl, base, True, key="solve", rel=True)
        else:
            s.set_q(ctx, jl, vals(rb, 2, jl, FLOATING), FLOATING)
            s.set_q(ctx, jl, [float(x) for x in q], base)
        readback(s, ctx, jl, base, np.hstack([q[:len(jl) + 4], wrap(q[len(jl) + 4:])]) if base == FLOATING and a == len(jl) + 4 else q, "special value")
        s.check_state(ctx, "state")
        ctx.state("v", i)
    F.append(mc.Family("values", len(places), run_v, lambda i: str(places[i])))

    # every pattern of zero and non-zero coordinates
    sparse = pk.sparse_cases(RB, thorough)

    def run_sparse(i, ctx):
        n, base, mask, k = sparse[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(sparse[i])
        jl, L = rb.movable, list(rb.links)
        if i % 3:
            s.set_q(ctx, jl, pk.row(rb, 2, jl, FLOATING), FLOATING)
        q = pk.sparse_row(rb, base, mask, k)
        if i % 4 == 3:
            s.solve_fk(ctx, [q], [L[-1]], jl, RPY, base, False, key="solve")
        else:
            s.set_q(ctx, jl, q, base)
        readback(s, ctx, jl, base, q, "zeros")
        s.check_state(ctx, "state")
        ctx.state("sparse", i)
    F.append(mc.Family("sparse", len(sparse), run_sparse, lambda i: str(sparse[i])))

    # joints listed more than once, written and read; long lists
    reps = [(n, jl, base, k) for n in RB for jl in pk.repeats(RB[n]) for base in BASES for k in range(3)]

    def run_reps(i, ctx):
        n, jl, base, k = reps[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(reps[i])
        s.set_q(ctx, rb.movable, pk.row(rb, (k + 1) % 3, rb.movable, FLOATING), FLOATING)
        q = pk.repeated_row(rb, (k + 1) % 3, jl, FIXED)
        readback(s, ctx, jl, FIXED, q, "joints repeated on reading")
        q = pk.repeated_row(rb, k, jl, base)
        if i % 3:
            s.set_q(ctx, jl, q, base)
        else:
            s.solve_fk(ctx, [q], [list(rb.links)[-1]], jl, RPY, base, True, key="solve")
        readback(s, ctx, jl, base, q, "joints repeated")
        for b in BASES:
            got = np.asarray(s.m.get_q(s.jids(jl), tk.BaseType[b]))
            ctx.check("round-trip", got.shape == (len(jl) + NBASE[b],), lambda: "get_q of %s with base %s has shape %s" % (jl, b, got.shape))
            ctx.near("round-trip", got[:len(jl)], [s.c.q[j] for j in jl], 0, "joint angles")
        s.check_state(ctx, "state")
        ctx.state("reps", i)
    F.append(mc.Family("repeats", len(reps), run_reps, lambda i: str(reps[i])))

    # planar and floating
    fl = ((), (0,), (1, 2))
    cases = [(n, jl, k, sq, what, jac, h) for n in RB for jl in pk.joint_lists(RB[n]) for k in range(len(BASEV)) for sq in (1, 2) for what in list(ROTS) + ["com0", "com1", "com2", "dist"] for jac in (False, True) for h in range(3)]

    def run_p(i, ctx):
        n, jl, k, sq, what, jac, h = cases[i]
        rb = RB[n]
        L = list(rb.links)
        ctx.note = str(cases[i])
        w = len(jl)
        out = []
        for base in (PLANER, FLOATING):
            s = pk.Sut(tk, rb)
            s.m.add_new_link("x", s.lids([L[-1]])[0], [0.1, 0.2, 0.3], [0.3, 0.2, 0.1])
            if h == 1:
                s.m.set_q(s.jids(rb.movable), vals(rb, 1, rb.movable, FLOATING), tk.BaseType.FLOATING)
            elif h == 2:
                s.m.set_q(s.jids(rb.movable), vals(rb, 0, rb.movable, PLANER), tk.BaseType.PLANER)
                s.m.solve_fk([vals(rb, 2, rb.movable, FLOATING)], s.lids(L), s.jids(rb.movable), base_type=tk.BaseType.FLOATING)
            rows = []
            for r in range(sq):
                p = vals(rb, (k + r) % len(BASEV), jl, PLANER)
                rows.append(p if base == PLANER else np.hstack([p[:w + 2], 0, 0, 0, p[w + 2]]))
            kw = dict(base_type=tk.BaseType[base], with_jacobian=jac)
            if what in ROTS:
                P, J = s.m.solve_fk(rows, s.lids(L + ["x"]), s.jids(jl), tk.RotationType[what], **kw)
            elif what == "dist":
                P, J = s.m.compute_inter_link_sqdists(rows, [tuple(s.lids([L[0], "x"])), tuple(s.lids(["x", L[-2]]))], s.jids(jl), **kw)
            else:
                f = fl[int(what[3])]
                a = {} if not f else dict(action_link_ids=s.lids([(L + ["x"])[-1 - z] for z in f]), action_forces=[1.7 + z for z in f])
                P, J = s.m.solve_com_fk(rows, s.jids(jl), **a, **kw)
            out.append((P, J, s.m.get_q(s.jids(rb.movable), tk.BaseType.FLOATING), s.m.get_q(s.jids(rb.movable), tk.BaseType.PLANER), s.m))
        (P, J, q6, q3, m), (P2, J2, r6, r3, m2) = out
        ctx.step(2)
        ctx.near("planar", P, P2, 1e-12, "values")
        if jac:
            ctx.near("planar", J, J2[:, list(range(w)) + [w, w + 1, w + 5]], 1e-12, "Jacobian")
        ctx.near("planar", q6, r6, 1e-12, "configuration afterwards")
        ctx.near("planar", q3, r3, 1e-12, "configuration afterwards")
        ctx.nontrivial += 1
        ctx.state("p", i)
    F.append(mc.Family("planar", len(cases), run_p, lambda i: str(cases[i])))
    return F


if __name__ == "__main__":
    raise SystemExit(mc.main(make))
