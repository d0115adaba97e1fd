"""C10 (Python part): names, ids and limits of the Python package agree with the description."""
import mc
import ref

tk = mc.import_tinyfk()
LIMITS = ["", "<limit lower='-1.5' upper='2.25' effort='3' velocity='4'/>", "<limit upper='0.5' effort='3' velocity='4'/>", "<limit lower='-0.5' effort='1' velocity='2'/>",
          "<limit effort='1' velocity='2'/>", "<limit lower='0' upper='0' effort='1' velocity='1'/>"]
TYPES = ["revolute", "continuous", "prismatic", "fixed"]
INERT = "<inertial><mass value='2'/><origin xyz='0 0 0' rpy='0 0 0'/><inertia ixx='1' ixy='0' ixz='0' iyy='1' iyz='0' izz='1'/></inertial>"


def make(thorough):
    kinds = [(t, l) for t in TYPES for l in range(len(LIMITS)) if not (t in ("revolute", "prismatic") and l == 0) and not (t == "fixed" and l > 1)]
    names = [("a", "b", "c"), ("c", "b", "a"), ("b", "a_com", "a")]
    K = len(kinds)
    size = K * K * (K if thorough else 4) * len(names)
    third = kinds if thorough else [("revolute", 1), ("continuous", 0), ("continuous", 1), ("fixed", 0)]

    def decode(i):
        d = mc.Digits(i)
        return d.pick(kinds), d.pick(kinds), d.pick(third), d.pick(names)

    def run(i, ctx):
        a, b, c, nm = decode(i)
        links = ["base", "l1", "l2", "l3"]
        text = "<robot name='r'>" + "".join("<link name='%s'>%s</link>" % (l, INERT if k % 2 else "") for k, l in enumerate(links))
        for k, ((t, l), n) in enumerate(zip((a, b, c), nm)):
            text += "<joint name='%s' type='%s'><parent link='%s'/><child link='%s'/><axis xyz='0 0 1'/>%s</joint>" % (n, t, links[k if i % 2 else 0], links[k + 1], LIMITS[l])
        text += "</robot>"
        m = tk.KinematicModel(xml_text=text)
        ctx.step()
        rb = ref.Robot(text)
        mv = rb.movable
        got = m.get_joint_names()
        ctx.check("names", sorted(got) == sorted(mv), lambda: "joint names %s instead of %s" % (got, mv))
        ctx.check("names", m.root_link_name == "base", lambda: "root is %s" % m.root_link_name)
        want = {}
        for n in mv:
            d = rb.joints[n]
            want[n] = (None, None) if d["type"] == "continuous" else d["limit"]
        orders = [[]] + [[x] for x in mv] + [[x, y] for x in mv for y in mv] + [mv, mv[::-1]]
        idof = {n: k for k, n in enumerate(got)}
        for o in orders:
            ids = m.get_joint_ids(o)
            ctx.step()
            ctx.check("ids", list(ids) == [idof[x] for x in o], lambda: "ids of %s are %s, names %s" % (o, ids, got))
            lim = m.get_joint_limits(ids)
            ctx.check("limits", [tuple(x) for x in lim] == [want[x] for x in o], lambda: "limits of %s are %s instead of %s" % (o, lim, [want[x] for x in o]))
        for o in ([l] for l in links), ([x, y] for x in links for y in links):
            for q in o:
                ids = m.get_link_ids(q)
                ctx.step()
                back = m._robot.get_link_names()
                ctx.check("ids", [back[k] for k in ids] == q, lambda: "ids of %s are %s of %s" % (q, ids, back))
        for bad, f in (["nosuch"], m.get_link_ids), (["nosuch"], m.get_joint_ids), (links[:1] + ["x"], m.get_link_ids), (mv[:1] + [""], m.get_joint_ids):
            try:
                f(bad)
                ctx.fail("unknown", "%s was accepted" % bad)
            except Exception:
                ctx.comparisons += 1
        ctx.nontrivial += 1
        ctx.state(text)
    return [mc.Family("limits", size, run, lambda i: str(decode(i)))]


if __name__ == "__main__":
    raise SystemExit(mc.main(make))
