"""C08: batched centre of mass with external vertical forces, and the total inertia matrix, after every short history."""
import numpy as np

import mc
import pk
import ref
from pk import BASES
from ref import FIXED, FLOATING, IGNORE, PLANER, RPY, XYZW

tk = mc.import_tinyfk()
RB = ref.robots()


def make(thorough):
    S = pk.sequences(3, True) if thorough else [s for s in pk.sequences(3, False) if len(s) < 3]
    HS = range(4) if thorough else [3]
    FL = [None, []] + [[(a, f)] for a in range(3) for f in (1.3, -0.4, 0.0)]
    FL += [[(a, f), (b, g)] for a in range(3) for b in range(3) for f, g in ((1.3, -0.4), (-0.4, 20.0))]
    FL += [[(a, 1.3), (b, 0.2), (c, -0.7)] for a in range(3) for b in range(3) for c in range(3) if thorough or len({a, b, c}) != 2]
    FL += [[(0, 2.5), (2, -2.5)], [(1, 0.0), (0, 0.0)], [(2, -3.0), (0, 1.0), (1, 2.0)], [(0, 1e-7)], [(1, 1e-3), (2, -1e-3)], [(0, 5e4), (1, 2.0)]]
    cases = [(n, jl, base, jac) for n in RB for jl in pk.joint_lists(RB[n]) for base in BASES for jac in (False, True)]
    size = len(cases) * len(FL) * len(S) * len(HS)

    def decode(i):
        d = mc.Digits(i)
        h, sq, fl = d.pick(list(HS)), d.pick(S), d.pick(FL)
        return d.pick(cases) + (fl, sq, h)

    def run(i, ctx):
        n, jl, base, jac, fl, sq, h = decode(i)
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = describe(i)
        L = list(rb.links)
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        if h & 1:
            s.set_q(ctx, rb.movable, pk.row(rb, 2, rb.movable, FLOATING), FLOATING)
            s.check_state(ctx, "com")
        if h & 2:
            s.com(ctx, [pk.row(rb, 1, rb.movable, base)], rb.movable, base, not jac)
        K = [L[-1], L[1], "added"]
        s.com(ctx, [pk.row(rb, k, jl, base) for k in sq], jl, base, jac, forces=None if fl is None else [(K[a], f) for a, f in fl], fm=(i // 3) % pk.NFORMS)
        s.check_state(ctx, "com-state", "afterwards, ", masses=True)
        ctx.nontrivial += 1
        ctx.state(i)

    def describe(i):
        return "robot %s, joints %s, base %s, Jacobian %s, forces %s, configurations %s, history %d" % decode(i)
    F = [mc.Family("batches", size, run, describe)]

    # histories of requests, each followed by the total inertia and the centre of mass of a configuration
    def ops(rb):
        L, mv = list(rb.links), rb.movable
        o = []
        for k in (0, 2):
            o.append(("set_q base %d" % k, lambda s, c, k=k: s.set_q(c, mv, pk.row(rb, k, mv, FLOATING), FLOATING)))
            o.append(("set_q one joint %d" % k, lambda s, c, k=k: s.set_q(c, mv[:1], pk.row(rb, k, mv[:1], PLANER), PLANER)))
            o.append(("com %d" % k, lambda s, c, k=k: s.com(c, [pk.row(rb, k, mv, FLOATING)], mv, FLOATING, True, key="inertia")))
            o.append(("com with forces %d" % k, lambda s, c, k=k: s.com(c, [pk.row(rb, k, mv[-1:], FIXED)], mv[-1:], FIXED, False, forces=[(L[-1], 2.0)], key="inertia")))
            o.append(("fk %d" % k, lambda s, c, k=k: s.solve_fk(c, [pk.row(rb, k, mv, PLANER)], L, mv, XYZW, PLANER, True, key="inertia")))
            o.append(("distances %d" % k, lambda s, c, k=k: s.sqdists(c, [pk.row(rb, k, mv, FIXED)], [(L[0], L[-1])], mv, FIXED, False, key="inertia")))
            o.append(("inertia %d" % k, lambda s, c, k=k: s.inertia(c, pk.row(rb, k, mv[::-1], FIXED), mv[::-1])))
            o.append(("inertia one joint %d" % k, lambda s, c, k=k: s.inertia(c, pk.row(rb, k, mv[:1], FIXED), mv[:1])))
        o.append(("add", lambda s, c: s.add(c, "n%d" % len(s.c.added), L[-1], [0.1, 0.2, 0.3], None)))
        o.append(("poses", lambda s, c: s.check_state(c, "inertia")))
        return o
    OPS = {n: ops(RB[n]) for n in RB}
    hist = [(n, h, jl) for n in RB for h in [mc.seq(i, len(OPS[n]), 0) for i in range(mc.nseq(len(OPS[n]), 3 if thorough else 2, 0))] for jl in range(len(pk.joint_lists(RB[n])))]

    def run_h(i, ctx):
        n, h, j = hist[i]
        rb = RB[n]
        jl = pk.joint_lists(rb)[j]
        s = pk.Sut(tk, rb)
        ctx.note = "%s %s joints %s" % (n, [OPS[n][o][0] for o in h], jl)
        for o in h:
            OPS[n][o][1](s, ctx)
        s.inertia(ctx, pk.row(rb, 1, jl, FIXED), jl)
        s.inertia(ctx, pk.row(rb, 0, jl, FIXED), jl)
        s.com(ctx, [pk.row(rb, 2, jl, FIXED), pk.row(rb, 0, jl, FIXED)], jl, FIXED, True)
        s.check_state(ctx, "inertia", masses=True)
        ctx.state("h", i)
    F.append(mc.Family("histories", len(hist), run_h, lambda i: "%s %s joint list %d" % (hist[i][0], [OPS[hist[i][0]][o][0] for o in hist[i][1]], hist[i][2])))

    # one configuration as a vector
    one = [(n, base, jac, k) for n in RB for base in BASES for jac in (False, True) for k in range(3)]

    def run_one(i, ctx):
        n, base, jac, k = one[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        r = pk.row(rb, k, rb.movable, base)
        s.com(ctx, [r], rb.movable, base, jac, qs=r)
        s.com(ctx, [r], rb.movable, base, jac, qs=[float(x) for x in r])
        s.com(ctx, [], rb.movable, base, jac, qs=np.zeros((0, len(r))))
        s.check_state(ctx, "com-state")
        ctx.state("one", i)
    F.append(mc.Family("one", len(one), run_one, lambda i: str(one[i])))

    # long batches, and batches whose rows differ little
    longs = [(n, base, k, pat, jac) for n in RB for base in BASES for k in pk.LENGTHS for pat in range(pk.PATTERNS) for jac in (False, True) if thorough or (k < 100) or (pat + k + len(n)) % 3 == 0]

    def run_long(i, ctx):
        n, base, k, pat, jac = longs[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        L, mv = list(rb.links), rb.movable
        ctx.note = str(longs[i])
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        rows = pk.long_rows(rb, mv, base, k, pat)
        s.com(ctx, rows, mv, base, jac, forces=[(L[-1], 1.5), ("added", -0.25)] if i % 2 else None, fm=i % pk.NFORMS)
        if k < 20:  # many forces instead
            M = L + ["added"]
            s.com(ctx, rows[:3], mv, base, jac, forces=[(M[a % len(M)], 0.1 + a % 7) for a in range(k * 17)])
        s.check_state(ctx, "com-state", "afterwards, ")
        ctx.state("long", i)
    F.append(mc.Family("long", len(longs), run_long, lambda i: str(longs[i])))
    NB = {(n, j, base): pk.neighbours(RB[n], jl, base) for n in RB for j, jl in enumerate(pk.joint_lists(RB[n])) for base in BASES}
    near = [(n, j, base, jac, k) for (n, j, base), v in NB.items() for jac in (False, True) for k in range(len(v))]

    def run_near(i, ctx):
        n, j, base, jac, k = near[i]
        rb = RB[n]
        jl = pk.joint_lists(rb)[j]
        s = pk.Sut(tk, rb)
        L = list(rb.links)
        ctx.note = str(near[i])
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        a, b = NB[(n, j, base)][k]
        fl = [(L[-1], 1.5), ("added", -0.25)] if (i // 2) % 2 else None
        s.com(ctx, [a, b], jl, base, jac, forces=fl)
        s.com(ctx, [a], jl, base, jac, forces=fl)
        s.com(ctx, [b, b, a], jl, base, jac)
        if base == FIXED:
            s.inertia(ctx, a, jl)
            s.inertia(ctx, b, jl)
        s.check_state(ctx, "com-state", "afterwards, ")
        ctx.state("near", i)
    F.append(mc.Family("near", len(near), run_near, lambda i: str(near[i])))
    # many links and joints
    BIG = ref.big()

    def run_large(i, ctx):
        s = pk.Sut(tk, BIG)
        jl, L, base, rows = pk.large(ctx, s, i // 4)
        ctx.note = describe_large(i)
        s.com(ctx, rows, jl, base, i % 2 == 0, forces=[(l, 0.1 * a - 1.7) for a, l in enumerate(L)] if i % 4 > 1 else None, fm=i % pk.NFORMS)
        s.inertia(ctx, pk.row(BIG, 1, jl, FIXED), jl)
        s.com(ctx, rows[:2], jl, base, i % 2 == 1)
        s.check_state(ctx, "com-state", "afterwards, ", masses=True)
        ctx.nontrivial += 1
        ctx.state("large", i)

    def describe_large(i):
        return "large robot, request %d" % i
    F.append(mc.Family("large", pk.NLARGE * 4, run_large, describe_large))
    # numbers of other types
    types = [(n, j, base, kind, k, jac) for n in RB for j in range(len(pk.joint_lists(RB[n]))) for base in BASES for kind in range(pk.NTYPED) for k in (1, 2) for jac in (False, True)]

    def run_types(i, ctx):
        n, j, base, kind, k, jac = types[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(types[i])
        L, jl = list(rb.links), pk.joint_lists(rb)[j]
        s.set_q(ctx, rb.movable, pk.row(rb, 1, rb.movable, FLOATING), FLOATING)
        rows = pk.whole_rows(rb, jl, base, k)
        qs = pk.typed(rows, kind)
        s.com(ctx, rows, jl, base, jac, forces=[(L[-1], 2), (L[0], -1.5)] if i % 2 else None, qs=qs)
        s.check_state(ctx, "com-state", "afterwards, ")
        ctx.state("types", i)
    F.append(mc.Family("types", len(types), run_types, lambda i: str(types[i])))
    # every pattern of zero and non-zero coordinates
    sparse = pk.sparse_cases(RB, thorough)

    def run_sparse(i, ctx):
        n, base, mask, k = sparse[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(sparse[i])
        L, mv = list(rb.links), rb.movable
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        if i % 3:
            s.set_q(ctx, mv, pk.row(rb, 2, mv, FLOATING), FLOATING)
        a, b = pk.sparse_row(rb, base, mask, k), pk.row(rb, 1, mv, base)
        rows = [a] if i % 2 else [b, a]
        s.com(ctx, rows, mv, base, i % 4 < 3, forces=[(L[-1], 1.5), ("added", -0.25)] if i % 5 < 3 else None)
        if base == FIXED:
            s.inertia(ctx, a, mv)
        s.check_state(ctx, "com-state", "afterwards, ")
        ctx.state("sparse", i)
    F.append(mc.Family("sparse", len(sparse), run_sparse, lambda i: str(sparse[i])))
    # joints listed more than once
    reps = [(n, jl, base, k) for n in RB for jl in pk.repeats(RB[n]) for base in BASES for k in range(2)]

    def run_reps(i, ctx):
        n, jl, base, k = reps[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(reps[i])
        s.set_q(ctx, rb.movable, pk.row(rb, 2, rb.movable, FLOATING), FLOATING)
        L = list(rb.links)
        s.com(ctx, [pk.repeated_row(rb, x, jl, base) for x in (k, 2, k)], jl, base, True, forces=[(L[-1], 1.5), (L[0], -0.25)] if i % 2 else None)
        if base == FIXED:
            s.inertia(ctx, pk.repeated_row(rb, k, jl, base), jl)
        s.check_state(ctx, "com-state", "afterwards, ")
        ctx.state("reps", i)
    F.append(mc.Family("repeats", len(reps), run_reps, lambda i: str(reps[i])))
    # more results than 8 or 16 bits can count: every one must equal that of the same item in a small batch;
    # forces: the same force in many parts
    hugec = [(n, nr, nf, base, jac) for n in RB for nr, nf in ((70001, 0), (66000, 2), (3, 300), (1, 66000), (22000, 0)) for base in BASES for jac in ((False, True) if thorough else (True,))]

    def run_huge(i, ctx):
        n, nr, nf, base, jac = hugec[i]
        rb = RB[n]
        ctx.note = str(hugec[i])
        mv, L = rb.movable, list(rb.links)
        few = pk.long_rows(rb, mv, base, min(11, nr), 0)
        fl = [(L[-1], 1.5), (L[0], -0.25)]
        s = pk.Sut(tk, rb)
        r = s.com(ctx, few, mv, base, jac, forces=fl if nf else None)
        if r is None:
            return
        s.m.set_q(s.jids(mv), np.zeros(len(mv)))
        kw = dict(action_link_ids=s.lids([fl[k % 2][0] for k in range(nf)]), action_forces=[fl[k % 2][1] * 2 / nf for k in range(nf)]) if nf else {}
        P, J = s.m.solve_com_fk(np.array(pk.huge(few, nr)), s.jids(mv), base_type=tk.BaseType[base], with_jacobian=jac, **kw)
        ctx.step(nr)
        ri = np.arange(nr) % len(few)
        ctx.near("huge", P, r[0][ri], 1e-8, "centres of mass")
        if jac:
            w = len(mv) + ref.NBASE[base]
            ctx.near("huge", J, r[1].reshape(len(few), 3, w)[ri].reshape(-1, w), 1e-7, "Jacobian")
        ctx.state("huge", i)
    F.append(mc.Family("huge", len(hugec), run_huge, lambda i: str(hugec[i])))
    return F


if __name__ == "__main__":
    raise SystemExit(mc.main(make))
