"""C07: inter-link squared distances and their gradients, for every batch and list of link pairs."""
import numpy as np

import mc
import pk
import ref
from pk import BASES
from ref import FIXED, FLOATING, IGNORE, PLANER, RPY

tk = mc.import_tinyfk()
RB = ref.robots()


def make(thorough):
    S = pk.sequences(3, True) if thorough else [s for s in pk.sequences(3, False) if len(s) < 3]
    HS = range(4) if thorough else [3]
    pairs = [(a, b) for a in range(3) for b in range(3)]
    PL = [[p] for p in pairs] + [[p, q] for p in pairs for q in pairs] + [[(0, 1), (1, 2), (2, 0)], [(0, 1), (0, 1), (1, 0)], [(2, 2), (0, 1), (2, 2)]]
    cases = [(n, jl, base, jac) for n in RB for jl in pk.joint_lists(RB[n]) for base in BASES for jac in (False, True)]
    size = len(cases) * len(PL) * len(S) * len(HS)

    def decode(i):
        d = mc.Digits(i)
        h, sq, pl = d.pick(list(HS)), d.pick(S), d.pick(PL)
        return d.pick(cases) + (pl, sq, h)

    def run(i, ctx):
        n, jl, base, jac, pl, sq, h = decode(i)
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = describe(i)
        L = list(rb.links)
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        if h & 1:
            s.set_q(ctx, rb.movable, pk.row(rb, 2, rb.movable, FLOATING), FLOATING)
            s.check_state(ctx, "sqdists")
        if h & 2:
            s.solve_fk(ctx, [pk.row(rb, 1, rb.movable, base)], L, rb.movable, RPY, base, not jac)
        K = [L[-1], L[1], "added"]
        s.sqdists(ctx, [pk.row(rb, k, jl, base) for k in sq], [(K[a], K[b]) for a, b in pl], jl, base, jac, fm=(i // 5) % pk.NFORMS)
        s.check_state(ctx, "sqdists-state", "afterwards, ")
        ctx.nontrivial += 1
        ctx.state(i)

    def describe(i):
        return "robot %s, joints %s, base %s, gradients %s, pairs %s, configurations %s, history %d" % decode(i)
    F = [mc.Family("batches", size, run, describe)]

    # every pair of links of a robot, all joints: zero for equal links, nothing changes when swapped
    allp = [(n, a, b, base, k) for n in RB for a in list(RB[n].links) + ["x", "y"] for b in list(RB[n].links) + ["x", "y"] for base in BASES for k in range(3)]

    def run_pair(i, ctx):
        n, a, b, base, k = allp[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        s.add(ctx, "x", list(rb.links)[-1], [0.3, 0.1, 0.1], None)
        s.add(ctx, "y", "x", [-0.3, 0.2, 0.1], [0.1, -0.8, 0.3])
        r = pk.row(rb, k, rb.movable, base)
        V, J = s.sqdists(ctx, [r], [(a, b), (b, a)], rb.movable, base, True)
        ctx.near("swap", V[0], V[1], 1e-13, "swapped pair")
        ctx.near("swap", J[0], J[1], 1e-13, "gradient of the swapped pair")
        if a == b:
            ctx.check("self", V[0] == 0 and (J[0] == 0).all(), lambda: "a link is not at distance zero of itself: %s %s" % (V[0], J[0]))
        W, _ = s.sqdists(ctx, [r], [(a, b)], rb.movable, base, False)
        ctx.near("swap", W[0], V[0], 1e-13, "without gradients")
        ctx.state("pair", i)
    F.append(mc.Family("pairs", len(allp), run_pair, lambda i: str(allp[i])))

    # links from micrometres to tens of kilometres apart; the result is relative to the distance
    D = [1e-6, 1e-3, 0.4, 9.9, 10.5, 300.0, 2e4]
    far = [(n, a, b, base, k) for n in RB for a in range(len(D)) for b in range(len(D)) for base in BASES for k in range(2)]

    def run_far(i, ctx):
        n, a, b, base, k = far[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        L = list(rb.links)
        s.add(ctx, "x", L[-1], [D[a], -0.3 * D[a], 0.1 * D[a]], None)
        s.add(ctx, "y", L[0], [0.2 * D[b], D[b], -D[b]], [0.1, -0.8, 0.3])
        s.add(ctx, "z", "y", [0, D[a], 0], None)
        r = pk.row(rb, k, rb.movable, base)
        s.sqdists(ctx, [r], [("x", "y"), ("z", "x"), (L[0], "x"), ("y", "z")], rb.movable, base, True, rel=True)
        s.sqdists(ctx, [r], [("y", "x")], rb.movable, base, False, rel=True)
        ctx.state("far", i)
    F.append(mc.Family("far", len(far), run_far, lambda i: str(far[i])))

    # long batches, and batches whose rows differ little
    longs = [(n, base, k, pat, jac) for n in RB for base in BASES for k in pk.LENGTHS for pat in range(pk.PATTERNS) for jac in (False, True) if thorough or (k < 100) or (pat + k + len(n)) % 3 == 0]

    def run_long(i, ctx):
        n, base, k, pat, jac = longs[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        L, mv = list(rb.links), rb.movable
        ctx.note = str(longs[i])
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        rows = pk.long_rows(rb, mv, base, k, pat)
        s.sqdists(ctx, rows, [(L[-1], "added"), (L[0], L[-1])], mv, base, jac, fm=i % pk.NFORMS)
        if k < 20:  # many pairs instead
            M = L + ["added"]
            s.sqdists(ctx, rows[:3], [(M[a % len(M)], M[(a // len(M)) % len(M)]) for a in range(k * 17)], mv, base, jac)
        s.check_state(ctx, "sqdists-state", "afterwards, ")
        ctx.state("long", i)
    F.append(mc.Family("long", len(longs), run_long, lambda i: str(longs[i])))
    NB = {(n, j, base): pk.neighbours(RB[n], jl, base) for n in RB for j, jl in enumerate(pk.joint_lists(RB[n])) for base in BASES}
    near = [(n, j, base, jac, k) for (n, j, base), v in NB.items() for jac in (False, True) for k in range(len(v))]

    def run_near(i, ctx):
        n, j, base, jac, k = near[i]
        rb = RB[n]
        jl = pk.joint_lists(rb)[j]
        s = pk.Sut(tk, rb)
        L = list(rb.links)
        ctx.note = str(near[i])
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        a, b = NB[(n, j, base)][k]
        s.sqdists(ctx, [a, b], [(L[-1], "added"), (L[0], L[-1])], jl, base, jac)
        s.sqdists(ctx, [a], [(L[-1], "added")], jl, base, jac)
        s.sqdists(ctx, [b, b, a], [("added", L[0])], jl, base, jac)
        s.check_state(ctx, "sqdists-state", "afterwards, ")
        ctx.state("near", i)
    F.append(mc.Family("near", len(near), run_near, lambda i: str(near[i])))
    # many links and joints
    BIG = ref.big()

    def run_large(i, ctx):
        s = pk.Sut(tk, BIG)
        jl, L, base, rows = pk.large(ctx, s, i // 2)
        ctx.note = describe_large(i)
        s.sqdists(ctx, rows, list(zip(L, L[::-1])) + list(zip(L, L[1:])), jl, base, i % 2 == 0, fm=i % pk.NFORMS)
        s.check_state(ctx, "sqdists-state", "afterwards, ", masses=True)
        ctx.nontrivial += 1
        ctx.state("large", i)

    def describe_large(i):
        return "large robot, request %d" % i
    F.append(mc.Family("large", pk.NLARGE * 2, run_large, describe_large))
    # numbers of other types
    types = [(n, j, base, kind, k, jac) for n in RB for j in range(len(pk.joint_lists(RB[n]))) for base in BASES for kind in range(pk.NTYPED) for k in (1, 2) for jac in (False, True)]

    def run_types(i, ctx):
        n, j, base, kind, k, jac = types[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(types[i])
        L, jl = list(rb.links), pk.joint_lists(rb)[j]
        s.set_q(ctx, rb.movable, pk.row(rb, 1, rb.movable, FLOATING), FLOATING)
        rows = pk.whole_rows(rb, jl, base, k)
        qs = pk.typed(rows, kind)
        s.sqdists(ctx, rows, [(L[-1], L[0]), (L[1], L[-1])], jl, base, jac, qs=qs)
        s.check_state(ctx, "sqdists-state", "afterwards, ")
        ctx.state("types", i)
    F.append(mc.Family("types", len(types), run_types, lambda i: str(types[i])))
    # every pattern of zero and non-zero coordinates
    sparse = pk.sparse_cases(RB, thorough)

    def run_sparse(i, ctx):
        n, base, mask, k = sparse[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(sparse[i])
        L, mv = list(rb.links), rb.movable
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        if i % 3:
            s.set_q(ctx, mv, pk.row(rb, 2, mv, FLOATING), FLOATING)
        a, b = pk.sparse_row(rb, base, mask, k), pk.row(rb, 1, mv, base)
        rows = [a] if i % 2 else [b, a]
        s.sqdists(ctx, rows, [(L[-1], "added"), (L[0], L[-1])], mv, base, i % 4 < 3)
        s.check_state(ctx, "sqdists-state", "afterwards, ")
        ctx.state("sparse", i)
    F.append(mc.Family("sparse", len(sparse), run_sparse, lambda i: str(sparse[i])))
    # links at the same place as other links
    CL = [[x] for x in range(16)] + [[x, y] for x in range(16) for y in range(16)] + [[5, 1, x] for x in range(16)] + [[x, 2, 11, 8, 3] for x in range(16)]
    coinc = [(n, base, jac, c) for n in RB for base in BASES for jac in (False, True) for c in range(len(CL))]

    def run_coinc(i, ctx):
        n, base, jac, c = coinc[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = "%s %s" % (coinc[i], CL[c])
        L, mv = list(rb.links), rb.movable
        s.add(ctx, "same", L[-1], [0, 0, 0], None)
        s.add(ctx, "turned", "same", [0, 0, 0], [0.3, 0.2, 0.1])
        K = [L[-1], "same", "turned", L[1]]
        s.sqdists(ctx, [pk.row(rb, k, mv, base) for k in range(1 + i % 2)], [(K[x % 4], K[x // 4]) for x in CL[c]], mv, base, jac)
        s.check_state(ctx, "sqdists-state", "afterwards, ")
        ctx.state("coinc", i)
    F.append(mc.Family("coincident", len(coinc), run_coinc, lambda i: "%s %s" % (coinc[i], CL[coinc[i][3]])))
    # joints listed more than once
    reps = [(n, jl, base, k) for n in RB for jl in pk.repeats(RB[n]) for base in BASES for k in range(2)]

    def run_reps(i, ctx):
        n, jl, base, k = reps[i]
        rb = RB[n]
        s = pk.Sut(tk, rb)
        ctx.note = str(reps[i])
        s.set_q(ctx, rb.movable, pk.row(rb, 2, rb.movable, FLOATING), FLOATING)
        L = list(rb.links)
        s.sqdists(ctx, [pk.repeated_row(rb, x, jl, base) for x in (k, 2, k)], [(L[-1], L[0]), (L[1], L[-1])], jl, base, True)
        s.check_state(ctx, "sqdists-state", "afterwards, ")
        ctx.state("reps", i)
    F.append(mc.Family("repeats", len(reps), run_reps, lambda i: str(reps[i])))
    # more results than 8 or 16 bits can count: every one must equal that of the same item in a small batch
    hugec = [(n, sz, base, jac) for n in RB for sz in pk.HUGE for base in BASES for jac in ((False, True) if thorough else (True,))]

    def run_huge(i, ctx):
        n, (nr, nl), base, jac = hugec[i]
        rb = RB[n]
        ctx.note = str(hugec[i])
        mv, L = rb.movable, list(rb.links)
        few = pk.long_rows(rb, mv, base, min(11, nr), 0)
        s = pk.Sut(tk, rb)
        s.add(ctx, "added", L[2 % len(L)], [0.2, -0.1, 0.3], [0.4, 0.5, -0.2])
        fp = [(L[-1], L[0]), (L[0], "added"), ("added", L[-1]), (L[-1], L[1]), (L[1], L[1])][:min(5, nl)]
        r = s.sqdists(ctx, few, fp, mv, base, jac)
        if r is None:
            return
        s.m.set_q(s.jids(mv), np.zeros(len(mv)))
        ids = [tuple(s.lids(p)) for p in fp]
        V, J = s.m.compute_inter_link_sqdists(np.array(pk.huge(few, nr)), pk.huge(ids, nl), s.jids(mv), tk.BaseType[base], jac)
        ctx.step(nr * nl)
        ri, li = np.arange(nr) % len(few), np.arange(nl) % len(fp)
        ctx.near("huge", V, r[0].reshape(len(few), len(fp))[ri][:, li].reshape(-1), 1e-9, "values")
        if jac:
            w = len(mv) + ref.NBASE[base]
            ctx.near("huge", J, r[1].reshape(len(few), len(fp), w)[ri][:, li].reshape(-1, w), 1e-8, "gradients")
        ctx.state("huge", i)
    F.append(mc.Family("huge", len(hugec), run_huge, lambda i: str(hugec[i])))
    return F


if __name__ == "__main__":
    raise SystemExit(mc.main(make))
