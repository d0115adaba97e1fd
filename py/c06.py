"""C06: batched forward kinematics equals solving one item at a time."""
import numpy as np

import mc
import pk
import ref
from pk import BASES, ROTS
from ref import FIXED, FLOATING, PLANER

tk = mc.import_tinyfk()
RB = ref.robots()
NAMES = list(RB)


def make(thorough):
    S = pk.sequences(3, thorough)
    cases = []
    for n in NAMES:
        rb = RB[n]
        JL = pk.joint_lists(rb)
        for jl in JL:
            for base in BASES:
                for rot in ROTS:
                    for jac in (False, True):
                        for ls in S:
                            cases.append((n, jl, base, rot, jac, ls))
    H = 4

    def decode(i):
        d = mc.Digits(i)
        h = d.pick(H)
        sq = d.pick(S)
        return cases[d.pick(len(cases))], sq, h, i

    def links_of(rb):
        L = list(rb.links)
        return [L[-1], L[0] if len(L) < 4 else L[1], "added"]

    def run(i, ctx):
        (n, jl, base, rot, jac, ls), sq, h, _ = decode(i)
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = "%s base=%s rot=%s jac=%s joints=%s configurations=%s links=%s history=%d" % (n, base, rot, jac, jl, sq, ls, h)
        parent = list(rb.links)[2 % len(rb.links)]
        s.add(ctx, "added", parent, [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        if h & 1:  # everything was somewhere else before
            s.set_q(ctx, rb.movable, pk.row(rb, 2, rb.movable, FLOATING), FLOATING)
            s.check_state(ctx, "batch")
        if h & 2:  # an earlier solve of other joints and links
            s.solve_fk(ctx, [pk.row(rb, 1, rb.movable, base)], list(rb.links), rb.movable, rot, base, not jac, key="batch")
        L = links_of(rb)
        rows = [pk.row(rb, k, jl, base) for k in sq]
        r = s.solve_fk(ctx, rows, [L[k] for k in ls], jl, rot, base, jac, fm=(i // 7) % pk.NFORMS, key="batch")
        s.check_state(ctx, "batch-state", "afterwards, ")
        ctx.nontrivial += 1
        ctx.state(n, jl, base, rot, jac, ls, sq, h)

    def describe(i):
        (n, jl, base, rot, jac, ls), sq, h, _ = decode(i)
        return "robot %s, joints %s, base %s, rotation %s, Jacobian %s, link list %s, configurations %s, history %d" % (n, jl, base, rot, jac, ls, sq, h)

    # thorough: every history; quick: the one with both an earlier configuration and an earlier solve
    HS = range(H) if thorough else [3]
    F = [mc.Family("batches", len(cases) * len(S) * len(HS), lambda k, c: run(k // len(HS) * H + HS[k % len(HS)], c), lambda k: describe(k // len(HS) * H + HS[k % len(HS)]))]

    # shapes: ways to pass one configuration and one link, long batches, empty batches, repeated links and joints
    shapes = []
    for n in NAMES:
        for base in BASES:
            for rot in ROTS:
                for jac in (False, True):
                    for what in range(8):
                        shapes.append((n, base, rot, jac, what))

    def run_shape(i, ctx):
        n, base, rot, jac, what = shapes[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = "shape %d, %s base=%s rot=%s jac=%s" % (what, n, base, rot, jac)
        mv, L = rb.movable, list(rb.links)
        r0, r1 = pk.row(rb, 0, mv, base), pk.row(rb, 1, mv, base)
        if what == 0:  # one configuration as a vector
            s.solve_fk(ctx, [r0], L, mv, rot, base, jac, qs=r0)
        elif what == 1:  # one link as an integer
            cs = s.configs([r0], mv, base)
            P, J = s.m.solve_fk([r0], s.lids(L[-1:])[0], s.jids(mv), tk.RotationType[rot], tk.BaseType[base], jac)
            s2 = pk.Sut(tk, rb)
            P2, J2 = s2.solve_fk(ctx, [r0], L[-1:], mv, rot, base, jac)
            ctx.near("shape", P, P2, 1e-13, "poses")
            if jac:
                ctx.near("shape", J, J2, 1e-13, "Jacobian")
        elif what == 2:  # long batch
            s.solve_fk(ctx, [r0, r1] * 20 + [r0], L * 3, mv, rot, base, jac)
        elif what == 3:  # no configurations
            w = len(mv) + ref.NBASE[base]
            s.solve_fk(ctx, [], L, mv, rot, base, jac, qs=np.zeros((0, w)))
        elif what == 4:  # no links
            s.solve_fk(ctx, [r0, r1], [], mv, rot, base, jac)
        elif what == 5:  # the same joint twice: the last value counts
            j2 = [mv[0]] + mv
            q = np.hstack([[9.0], r0])
            cs = s.configs([q], j2, base)
            P, J = s.m.solve_fk([q], s.lids(L), s.jids(j2), tk.RotationType[rot], tk.BaseType[base], False)
            s2 = pk.Sut(tk, rb)
            P2, _ = s2.solve_fk(ctx, [r0], L, mv, rot, base, False)
            ctx.near("shape", P, P2, 1e-13, "poses")
        elif what == 6:  # arguments are not changed
            rows = [r0.copy(), r1.copy()]
            lids, jids = s.lids(L), s.jids(mv)
            a, b = list(lids), list(jids)
            s.m.solve_fk(rows, lids, jids, tk.RotationType[rot], tk.BaseType[base], jac)
            arr = np.array([r0, r1])
            s.m.solve_fk(arr, lids, jids, tk.RotationType[rot], tk.BaseType[base], jac)
            ctx.check("shape", lids == a and jids == b and (rows[0] == r0).all() and (rows[1] == r1).all() and (arr == [r0, r1]).all(), "the arguments were changed")
            s.configs(rows, mv, base)
        else:  # earlier results stay what they were
            P, J = s.solve_fk(ctx, [r0, r1], L, mv, rot, base, jac)
            P0, J0 = P.copy(), J.copy()
            s.solve_fk(ctx, [r1], L, mv, rot, base, jac)
            s.add(ctx, "x", L[0], [1, 2, 3])
            ctx.check("shape", (P == P0).all() and (J == J0).all(), "an earlier result was changed")
        s.check_state(ctx, "batch-state", "afterwards, ")
        ctx.state("shape", i)
    F.append(mc.Family("shapes", len(shapes), run_shape, lambda i: str(shapes[i])))

    # long batches, and batches whose rows differ little
    longs = [(n, base, k, pat, jac) for n in RB for base in BASES for k in pk.LENGTHS for pat in range(pk.PATTERNS) for jac in (False, True) if thorough or (k < 100) or (pat + k + len(n)) % 3 == 0]

    def run_long(i, ctx):
        n, base, k, pat, jac = longs[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        L, mv = list(rb.links), rb.movable
        ctx.note = str(longs[i])
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        rows = pk.long_rows(rb, mv, base, k, pat)
        rot = ROTS[(i + k) % 3]
        s.solve_fk(ctx, rows, [L[-1], "added"], mv, rot, base, jac, fm=i % pk.NFORMS, key="batch")
        if k < 20:  # many links instead
            s.solve_fk(ctx, rows[:3], ((L + ["added"]) * 300)[:k * 17], mv, rot, base, jac, key="batch")
        s.check_state(ctx, "batch-state", "afterwards, ")
        ctx.state("long", i)
    F.append(mc.Family("long", len(longs), run_long, lambda i: str(longs[i])))
    NB = {(n, j, base): pk.neighbours(RB[n], jl, base) for n in RB for j, jl in enumerate(pk.joint_lists(RB[n])) for base in BASES}
    near = [(n, j, base, jac, k) for (n, j, base), v in NB.items() for jac in (False, True) for k in range(len(v))]

    def run_near(i, ctx):
        n, j, base, jac, k = near[i]
        rb = RB[n]
        jl = pk.joint_lists(rb)[j]
        s = pk.Sut(tk, rb)
        L = list(rb.links)
        ctx.note = str(near[i])
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        a, b = NB[(n, j, base)][k]
        rot = ROTS[i % 3]
        s.solve_fk(ctx, [a, b], [L[-1], "added"], jl, rot, base, jac, key="batch")
        s.solve_fk(ctx, [a], [L[-1], "added"], jl, rot, base, jac, key="batch")
        s.solve_fk(ctx, [b, b, a], [L[-1]], jl, rot, base, jac, key="batch")
        s.check_state(ctx, "batch-state", "afterwards, ")
        ctx.state("near", i)
    F.append(mc.Family("near", len(near), run_near, lambda i: str(near[i])))
    # many links and joints
    BIG = ref.big()

    def run_large(i, ctx):
        s = pk.Sut(tk, BIG)
        jl, L, base, rows = pk.large(ctx, s, i // 6)
        ctx.note = describe_large(i)
        s.solve_fk(ctx, rows, L, jl, ROTS[i % 3], base, i % 6 < 3, fm=i % pk.NFORMS, key="batch")
        s.check_state(ctx, "batch-state", "afterwards, ", masses=True)
        ctx.nontrivial += 1
        ctx.state("large", i)

    def describe_large(i):
        return "large robot, request %d" % i
    F.append(mc.Family("large", pk.NLARGE * 6, run_large, describe_large))
    # numbers of other types
    types = [(n, j, base, kind, k, jac) for n in RB for j in range(len(pk.joint_lists(RB[n]))) for base in BASES for kind in range(pk.NTYPED) for k in (1, 2) for jac in (False, True)]

    def run_types(i, ctx):
        n, j, base, kind, k, jac = types[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(types[i])
        L, jl = list(rb.links), pk.joint_lists(rb)[j]
        s.set_q(ctx, rb.movable, pk.row(rb, 1, rb.movable, FLOATING), FLOATING)
        rows = pk.whole_rows(rb, jl, base, k)
        qs = pk.typed(rows, kind)
        s.solve_fk(ctx, rows, [L[-1], L[1]], jl, ROTS[i % 3], base, jac, key="batch", qs=qs)
        s.check_state(ctx, "batch-state", "afterwards, ")
        ctx.state("types", i)
    F.append(mc.Family("types", len(types), run_types, lambda i: str(types[i])))
    # every pattern of zero and non-zero coordinates
    sparse = pk.sparse_cases(RB, thorough)

    def run_sparse(i, ctx):
        n, base, mask, k = sparse[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(sparse[i])
        L, mv = list(rb.links), rb.movable
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        if i % 3:
            s.set_q(ctx, mv, pk.row(rb, 2, mv, FLOATING), FLOATING)
        a, b = pk.sparse_row(rb, base, mask, k), pk.row(rb, 1, mv, base)
        rows = [a] if i % 2 else [b, a]
        s.solve_fk(ctx, rows, [L[-1], "added", L[0]], mv, ROTS[i // 2 % 3], base, i % 4 < 3, key="batch")
        s.check_state(ctx, "batch-state", "afterwards, ")
        ctx.state("sparse", i)
    F.append(mc.Family("sparse", len(sparse), run_sparse, lambda i: str(sparse[i])))
    # joints listed more than once
    reps = [(n, jl, base, k) for n in RB for jl in pk.repeats(RB[n]) for base in BASES for k in range(2)]

    def run_reps(i, ctx):
        n, jl, base, k = reps[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(reps[i])
        s.set_q(ctx, rb.movable, pk.row(rb, 2, rb.movable, FLOATING), FLOATING)
        L = list(rb.links)
        s.solve_fk(ctx, [pk.repeated_row(rb, x, jl, base) for x in (k, 2, k)], [L[-1], L[1]], jl, ROTS[i % 3], base, True, key="batch")
        s.solve_fk(ctx, [pk.repeated_row(rb, k, jl, base)], [L[-1]], jl, ROTS[(i + 1) % 3], base, False, key="batch")
        s.check_state(ctx, "batch-state", "afterwards, ")
        ctx.state("reps", i)
    F.append(mc.Family("repeats", len(reps), run_reps, lambda i: str(reps[i])))
    # more result rows than 8 or 16 bits can count: every row must equal the one of the same item in a small batch
    hugec = [(n, sz, base, jac) for n in RB for sz in pk.HUGE for base in BASES for jac in ((False, True) if thorough else (True,))]

    def run_huge(i, ctx):
        n, (nr, nl), base, jac = hugec[i]
        rb = RB[n]
        ctx.note = str(hugec[i])
        rot = ROTS[i % 3]
        mv, L = rb.movable, list(rb.links)
        fl = [L[-1], L[0], L[1], L[-1], L[1]][:min(5, nl)]
        few = pk.long_rows(rb, mv, base, min(11, nr), 0)
        s = pk.Sut(tk, rb)
        r = s.solve_fk(ctx, few, fl, mv, rot, base, jac, key="batch")
        if r is None:
            return
        s = pk.Sut(tk, rb)
        P, J = s.m.solve_fk(np.array(pk.huge(few, nr)), pk.huge(s.lids(fl), nl), s.jids(mv), tk.RotationType[rot], tk.BaseType[base], jac)
        ctx.step(nr * nl)
        d = r[0].shape[1]
        ri, li = np.arange(nr) % len(few), np.arange(nl) % len(fl)
        ctx.near("huge", P, r[0].reshape(len(few), len(fl), d)[ri][:, li].reshape(-1, d), 1e-9, "poses")
        if jac:
            w = len(mv) + ref.NBASE[base]
            ctx.near("huge", J, r[1].reshape(len(few), len(fl), d, w)[ri][:, li].reshape(-1, w), 1e-8, "Jacobian")
        ctx.state("huge", i)
    F.append(mc.Family("huge", len(hugec), run_huge, lambda i: str(hugec[i])))
    return F


if __name__ == "__main__":
    raise SystemExit(mc.main(make))
