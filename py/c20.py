"""C20: ill-formed requests are rejected without any effect, and well-formed ones never raise (run with AddressSanitizer too)."""
import os
import pickle

import numpy as np

import mc
import pk
import ref
from pk import BASES
from ref import FIXED, FLOATING, IGNORE, NBASE, PLANER, RPY, XYZW

tk = mc.import_tinyfk()
RB = ref.robots()


def setup(s, ctx, h):
    """histories before the request"""
    rb = s.robot
    mv, L = rb.movable, list(rb.links)
    if h & 1:
        s.add(ctx, "added", L[-1], [0.1, 0.2, 0.3], [0.1, -0.2, 0.3])
        s.set_q(ctx, mv, pk.row(rb, 0, mv, FLOATING), FLOATING)
    if h & 2:
        s.solve_fk(ctx, [pk.row(rb, 1, mv, PLANER)], L, mv, XYZW, PLANER, True)
        s.com(ctx, [pk.row(rb, 2, mv, FIXED)], mv, FIXED, True)


def bad_ids(n):
    return [n, n + 1, n + 7, 1000, 2 ** 20, 2 ** 31, 2 ** 32, 2 ** 63, -1, -n, 2 ** 70, 0.5, None, "a"]


def positions(good, bad):
    """the unknown id alone, first, last and in the middle of known ones"""
    r = [[bad], [bad] + good, good + [bad]]
    if len(good) > 1:
        r.append(good[:1] + [bad] + good[1:])
    return r


def requests(n):
    """(description, function of a Sut) of every ill-formed request to a robot"""
    rb = RB[n]
    mv, L = rb.movable, list(rb.links)
    R = []

    def add(what, f):
        R.append((what, f))

    def wide(k, w):
        r = list(pk.row(rb, k, mv, FLOATING)) * 3
        return (r + [0.1] * 60)[:w]
    # wrong lengths
    for base in BASES:
        for jl in pk.joint_lists(rb):
            w = len(jl) + NBASE[base]
            B = dict(base_type=tk.BaseType[base])
            good = list(pk.row(rb, 1, jl, base))
            for d in list(range(0, w + 8)) + [w + 20, 40]:
                if d == w:
                    continue
                bad = wide(2, d)
                t = "%s joints %s: %d values instead of %d" % (base, jl, d, w)
                for fm in ("array", "list"):
                    v = np.array(bad, float) if fm == "array" else bad
                    add("set_q %s (%s)" % (t, fm), lambda s, jl=jl, v=v, base=base: s.m.set_q(s.jids(jl), v, tk.BaseType[base]))
                    if base == FIXED:
                        add("inertia %s (%s)" % (t, fm), lambda s, jl=jl, v=v: s.m.compute_total_inertia_matrix(v, s.jids(jl)))
                for fm, rows in (("one row", [bad]), ("one array row", np.array([bad], float)), ("last row", [good, bad]), ("first row", [bad, good]), ("all rows", [bad, bad, bad]), ("vector", np.array(bad, float))):
                    if fm == "vector" and d == 0:
                        continue
                    for jac in (False, True):
                        K = dict(B, with_jacobian=jac)
                        add("solve_fk %s, %s, %s" % (t, fm, jac), lambda s, jl=jl, rows=rows, K=K: s.m.solve_fk(rows, s.lids(L[:2]), s.jids(jl), **K))
                        add("solve_com_fk %s, %s, %s" % (t, fm, jac), lambda s, jl=jl, rows=rows, K=K: s.m.solve_com_fk(rows, s.jids(jl), **K))
                        if not jac:
                            add("solve_com_fk with forces %s, %s" % (t, fm), lambda s, jl=jl, rows=rows, K=K: s.m.solve_com_fk(rows, s.jids(jl), s.lids(L[-1:]), [2.0], **K))
                        add("sqdists %s, %s, %s" % (t, fm, jac), lambda s, jl=jl, rows=rows, K=K: s.m.compute_inter_link_sqdists(rows, [tuple(s.lids(L[:2]))], s.jids(jl), **K))
        # unknown joints and links, inconsistent lists
        B = dict(base_type=tk.BaseType[base])
        for b in bad_ids(len(mv)):
            for p in range(4 if len(mv) > 1 else 3):
                def jl(s, b=b, p=p):
                    return positions(s.jids(mv[:2]), b)[p]

                def q(s, base=base, jl=jl):
                    return np.array(wide(0, len(jl(s)) + NBASE[base]), float)
                t = "%s unknown joint %r at %d" % (base, b, p)
                add("set_q " + t, lambda s, jl=jl, q=q, base=base: s.m.set_q(jl(s), q(s), tk.BaseType[base]))
                add("get_q " + t, lambda s, jl=jl, base=base: s.m.get_q(jl(s), tk.BaseType[base]))
                for jac in (False, True):
                    K = dict(B, with_jacobian=jac)
                    for rep in (1, 2):
                        u = "%s %s %d" % (t, jac, rep)
                        add("solve_fk " + u, lambda s, jl=jl, q=q, K=K, rep=rep: s.m.solve_fk([q(s)] * rep, s.lids(L), jl(s), **K))
                        add("solve_com_fk " + u, lambda s, jl=jl, q=q, K=K, rep=rep: s.m.solve_com_fk([q(s)] * rep, jl(s), **K))
                        add("sqdists " + u, lambda s, jl=jl, q=q, K=K, rep=rep: s.m.compute_inter_link_sqdists([q(s)] * rep, [tuple(s.lids(L[:2]))], jl(s), **K))
                if base == FIXED:
                    add("inertia " + t, lambda s, jl=jl, q=q: s.m.compute_total_inertia_matrix(q(s), jl(s)))
                    add("get_joint_limits " + t, lambda s, jl=jl: s.m.get_joint_limits(jl(s)))
        for bi in range(len(bad_ids(0))):
            for p in range(4):
                for jac in (False, True):
                    K = dict(B, with_jacobian=jac)

                    def ll(s, bi=bi, p=p):
                        return positions(s.lids(L[:2]), bad_ids(len(s.m._robot.get_link_names()))[bi])[p]
                    row = pk.row(rb, 1, mv, base)
                    t = "%s unknown link %d at %d %s" % (base, bi, p, jac)
                    add("solve_fk " + t, lambda s, ll=ll, row=row, K=K: s.m.solve_fk([row], ll(s), s.jids(mv), **K))
                    add("solve_com_fk " + t, lambda s, ll=ll, row=row, K=K: s.m.solve_com_fk([row], s.jids(mv), ll(s), [1.0] * len(ll(s)), **K))
                    add("sqdists first " + t, lambda s, ll=ll, row=row, K=K: s.m.compute_inter_link_sqdists([row, row], [(x, 0) for x in ll(s)], s.jids(mv), **K))
                    add("sqdists second " + t, lambda s, ll=ll, row=row, K=K: s.m.compute_inter_link_sqdists([row, row], [(0, x) for x in ll(s)], s.jids(mv), **K))
                    if p == 0:
                        add("solve_fk scalar " + t, lambda s, ll=ll, row=row, K=K: s.m.solve_fk([row], ll(s)[0], s.jids(mv), **K))
        for jac in (False, True):
            K = dict(B, with_jacobian=jac)
            row = pk.row(rb, 1, mv, base)
            for nl in range(4):
                for nf in range(4):
                    if nl != nf:
                        add("solve_com_fk %s %d links and %d forces, %s" % (base, nl, nf, jac), lambda s, nl=nl, nf=nf, row=row, K=K: s.m.solve_com_fk([row], s.jids(mv), s.lids((L * 2)[:nl]), [1.5] * nf, **K))
                if nl:
                    add("solve_com_fk %s %d links without forces, %s" % (base, nl, jac), lambda s, nl=nl, row=row, K=K: s.m.solve_com_fk([row], s.jids(mv), s.lids((L * 2)[:nl]), **K))
            for k, pr in enumerate(([(0,)], [(0, 1, 2)], [(0, 1), (2,)], [(0, 1, 2), (0, 1)], [(0, 1), (0, 1, 2)], [()], [(0, 1), ()])):
                add("sqdists %s pairs %s, %s" % (base, pr, jac), lambda s, pr=pr, row=row, K=K: s.m.compute_inter_link_sqdists([row], pr, s.jids(mv), **K))
    # names and added links
    for k in range(len(L) + 3):
        def taken(s, k=k):
            names = s.m._robot.get_link_names()
            return names[k % len(names)]
        add("add_new_link with taken name %d" % k, lambda s, taken=taken: s.m.add_new_link(taken(s), 0, [1, 2, 3], [0.1, 0.2, 0.3]))
        add("add_new_link with taken name %d and unknown parent" % k, lambda s, taken=taken: s.m.add_new_link(taken(s), 10 ** 6, [1, 2, 3]))
    for bi in range(len(bad_ids(0))):
        add("add_new_link to unknown parent %d" % bi, lambda s, bi=bi: s.m.add_new_link("fresh", bad_ids(len(s.m._robot.get_link_names()))[bi], [1, 2, 3], [0.1, 0, 0]))
    for k in (0, 1, 2, 4, 5, 6):
        for rp in (None, [0.1, 0.2, 0.3]):
            add("add_new_link with %d coordinates" % k, lambda s, k=k, rp=rp: s.m.add_new_link("fresh", 0, [0.5] * k, rp))
        add("add_new_link with %d angles" % k, lambda s, k=k: s.m.add_new_link("fresh", 0, [0.5] * 3, [0.2] * k))
    for bad in ("nothing", "", L[0] + " ", L[0].upper() + "_", mv[0] + "x", "tip\0"):
        for p in range(4):
            add("get_link_ids %r at %d" % (bad, p), lambda s, bad=bad, p=p: s.m.get_link_ids(positions(L[:2], bad)[p]))
            if p < 3 or len(mv) > 1:
                add("get_joint_ids %r at %d" % (bad, p), lambda s, bad=bad, p=p: s.m.get_joint_ids(positions(mv[:2], bad)[p]))
    add("get_joint_ids of a link", lambda s: s.m.get_joint_ids(L[:1]))
    add("get_link_ids of a joint", lambda s: s.m.get_link_ids(mv[:1]))
    for d in dict.fromkeys(j["name"] for j in rb.joints.values() if j["type"] == "fixed"):
        add("get_joint_ids of a fixed joint", lambda s, d=d: s.m.get_joint_ids([d]))
    return R


def make(thorough):
    REQ = {n: requests(n) for n in RB}
    cases = [(n, r, h) for n in RB for r in range(len(REQ[n])) for h in (range(4) if thorough else (0, 3) if n == "nomass_root" else (3,))]

    def try_one(ctx, s, what, f):
        ctx.step()
        try:
            f(s)
        except Exception:
            return True
        ctx.fail("accepted", what + " was accepted")
        return False

    def run(i, ctx):
        n, r, h = cases[i]
        what, f = REQ[n][r]
        s = pk.Sut(tk, RB[n])
        ctx.note = "%s history %d %s" % (n, h, what)
        setup(s, ctx, h)
        ok = try_one(ctx, s, what, f)
        ctx.comparisons += 1
        s.check_state(ctx, "effect", "after the rejected request, ")
        if ok:  # once more, then well-formed requests
            try_one(ctx, s, what, f)
        c = pk.Sut(tk, RB[n], pickle.loads(pickle.dumps(s.m)), s.c.copy())
        c.check_state(ctx, "copy", "in a copy, ")
        s.full(ctx, "effect", "after the rejected request, ")
        s.add(ctx, "fresh", list(RB[n].links)[0], [0.3, 0.1, 0], [0, 0.2, 0])
        s.set_q(ctx, RB[n].movable, pk.row(RB[n], 2, RB[n].movable, FLOATING), FLOATING)
        s.full(ctx, "effect", "after well-formed requests which follow, ")
        ctx.nontrivial += 1
        ctx.state(n, what, h)

    F = [mc.Family("single", len(cases), run, lambda i: "%s history %d: %s" % (cases[i][0], cases[i][2], REQ[cases[i][0]][cases[i][1]][0]))]

    # constructing a model
    text = RB["chain"].text
    where = os.path.join(os.environ["MC_SCRATCH"], "c20-%d" % os.getpid())
    PATHS = {"none": None, "file": where + ".urdf", "missing": where + ".no", "folder": where + ".d", "empty file": where + ".empty", "no path": ""}
    TEXTS = {"none": None, "text": text, "other": RB["nomass_root"].text, "empty": "", "half": text[:len(text) // 2], "no links": "<robot name='r'/>", "words": "not a description", "number": 7}
    GOOD = {("file", "none"), ("none", "text"), ("none", "other")}
    ctor = [(p, t, kw, k) for p in PATHS for t in TEXTS for kw in range(2) for k in range(2)]

    def run_ctor(i, ctx):
        p, t, kw, k = ctor[i]
        ctx.note = "path: %s, text: %s" % (p, t)
        s = pk.Sut(tk, RB["chain"])
        setup(s, ctx, 3)
        with open(PATHS["file"], "w") as f:
            f.write(text)
        open(PATHS["empty file"], "w").close()
        os.makedirs(PATHS["folder"], exist_ok=True)
        a, b = PATHS[p], TEXTS[t]
        ctx.step()
        try:
            if k == 0:
                m = tk.KinematicModel(urdfpath=a, xml_text=b) if kw else tk.KinematicModel(a, b)
            else:
                m = tk.KinematicModel.__new__(tk.KinematicModel)
                m.__init__(a, b)
        except Exception:
            m = None
        ctx.check("constructor", (m is not None) == ((p, t) in GOOD), lambda: "was %s" % ("accepted" if m else "rejected"))
        if m is not None:
            n = pk.Sut(tk, RB["nomass_root" if t == "other" else "chain"], m)
            n.full(ctx, "constructor")
        s.full(ctx, "effect", "after constructing another model, ")
        ctx.state("ctor", i)
    F.append(mc.Family("constructor", len(ctor), run_ctor, lambda i: repr(ctor[i])))

    # pairs of different ill-formed requests around a well-formed one
    def some(n):
        seen, out = {}, []
        for k, (what, _) in enumerate(REQ[n]):
            w = what.split()
            key = (w[0], w[1], "unknown" in what, "vector" in what, "last row" in what, "forces" in what, "angles" in what)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= (3 if thorough else 1):
                out.append(k)
        return out
    pairs = [(n, a, b) for n in ("chain", "nomass_root") for a in some(n) for b in some(n)]

    def run2(i, ctx):
        n, a, b = pairs[i]
        s = pk.Sut(tk, RB[n])
        ctx.note = "%s %s, %s" % (n, REQ[n][a][0], REQ[n][b][0])
        setup(s, ctx, 1)
        mv = RB[n].movable
        try_one(ctx, s, *REQ[n][a])
        s.set_q(ctx, mv[:1], pk.row(RB[n], 2, mv[:1], PLANER), PLANER)
        try_one(ctx, s, *REQ[n][b])
        s.check_state(ctx, "effect", "after two rejected requests, ")
        c = pk.Sut(tk, RB[n], pickle.loads(pickle.dumps(s.m)), s.c.copy())
        c.full(ctx, "copy", "in a copy, ")
        ctx.nontrivial += 1
        ctx.state(n, a, b)
    F.append(mc.Family("pairs", len(pairs), run2, lambda i: "%s: %s, then %s" % (pairs[i][0], REQ[pairs[i][0]][pairs[i][1]][0], REQ[pairs[i][0]][pairs[i][2]][0])))
    return F


if __name__ == "__main__":
    raise SystemExit(mc.main(make))
