"""Dumps a URDF as flat lines for the reference (independent XML reader: ElementTree)."""
import sys, xml.etree.ElementTree as ET
def f3(s):
    return [float(x) for x in s.split()]
def dump(path, out):
    r = ET.parse(path).getroot()
    links = [l for l in r if l.tag == "link"]
    idx = {l.get("name"): i for i, l in enumerate(links)}
    with open(out, "w") as o:
        for l in links:
            i = l.find("inertial")
            if i is None:
                o.write("L %s 0\n" % l.get("name"))
            else:
                og = i.find("origin")
                xyz = f3(og.get("xyz", "0 0 0")) if og is not None else [0, 0, 0]
                rpy = f3(og.get("rpy", "0 0 0")) if og is not None else [0, 0, 0]
                I = i.find("inertia")
                v = [float(i.find("mass").get("value"))] + xyz + rpy + [float(I.get(k)) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")]
                o.write("L %s 1 %s\n" % (l.get("name"), " ".join(repr(x) for x in v)))
        for j in r:
            if j.tag != "joint":
                continue
            og = j.find("origin")
            xyz = f3(og.get("xyz", "0 0 0")) if og is not None else [0, 0, 0]
            rpy = f3(og.get("rpy", "0 0 0")) if og is not None else [0, 0, 0]
            ax = j.find("axis")
            a = f3(ax.get("xyz")) if ax is not None and ax.get("xyz") else [1, 0, 0]
            t = {"revolute": 0, "continuous": 1, "prismatic": 2, "fixed": 3}[j.get("type")]
            li = j.find("limit")
            lim = [1] + [float(li.get(k, "0")) for k in ("lower", "upper", "velocity", "effort")] if li is not None else [0, 0, 0, 0, 0]
            o.write("J %s %d %d %d %s\n" % (j.get("name"), t, idx[j.find("parent").get("link")], idx[j.find("child").get("link")],
                                            " ".join(repr(x) for x in xyz + rpy + a + lim)))
if __name__ == "__main__":
    dump(sys.argv[1], sys.argv[2])
