"""Independent reference for the Python checks: kinematics and mass properties from the text of the
description, in numpy. Nothing here uses the package under test."""
import math
import xml.etree.ElementTree as ET

import numpy as np

IGNORE, RPY, XYZW = "IGNORE", "RPY", "XYZW"
FIXED, PLANER, FLOATING = "FIXED", "PLANER", "FLOATING"
NBASE = {FIXED: 0, PLANER: 3, FLOATING: 6}
NROT = {IGNORE: 0, RPY: 3, XYZW: 4}


def rpy_matrix(r, p, y):
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
                     [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
                     [-sp, cp * sr, cp * cr]])


def matrix_rpy(R):
    return np.array([math.atan2(R[2, 1], R[2, 2]), math.asin(max(-1.0, min(1.0, -R[2, 0]))), math.atan2(R[1, 0], R[0, 0])])


def quat_matrix(q):
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def matrix_quat(R):
    t = np.array([[R[0, 0] - R[1, 1] - R[2, 2], R[0, 1] + R[1, 0], R[0, 2] + R[2, 0], R[2, 1] - R[1, 2]],
                  [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], R[1, 2] + R[2, 1], R[0, 2] - R[2, 0]],
                  [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], R[1, 0] - R[0, 1]],
                  [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3
    w, v = np.linalg.eigh(t)
    return v[:, -1]


def axis_angle(a, t):
    a = np.asarray(a, float)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K)


def vec(s, n=3):
    return np.array([float(x) for x in s.split()]) if s else np.zeros(n)


def origin(e):
    if e is None:
        return np.zeros(3), np.eye(3)
    return vec(e.get("xyz")), rpy_matrix(*vec(e.get("rpy")))


class Robot:
    """description; links added later are part of a Config"""
    def __init__(self, text):
        self.text = text
        root = ET.fromstring(text)
        self.links, self.joints, self.parent_joint = {}, {}, {}
        for l in root.findall("link"):
            ine = l.find("inertial")
            d = None
            if ine is not None:
                p, R = origin(ine.find("origin"))
                i = ine.find("inertia")
                g = {k: float(i.get(k)) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")}
                d = (float(ine.find("mass").get("value")), p, R, np.array([[g["ixx"], g["ixy"], g["ixz"]], [g["ixy"], g["iyy"], g["iyz"]], [g["ixz"], g["iyz"], g["izz"]]]))
            self.links[l.get("name")] = d
        for j in root.findall("joint"):
            p, R = origin(j.find("origin"))
            ax = j.find("axis")
            a = vec(ax.get("xyz")) if ax is not None else np.array([1.0, 0, 0])
            lim = j.find("limit")
            d = dict(name=j.get("name"), type=j.get("type"), parent=j.find("parent").get("link"), child=j.find("child").get("link"), p=p, R=R, axis=a,
                     limit=None if lim is None else (float(lim.get("lower", 0)), float(lim.get("upper", 0))))
            self.joints[d["name"]] = d
            self.parent_joint[d["child"]] = d
        self.root = [l for l in self.links if l not in self.parent_joint][0]
        self.movable = sorted(n for n, d in self.joints.items() if d["type"] != "fixed")
        self.mass = sum(d[0] for d in self.links.values() if d)


class Config:
    """a configuration of a robot: joint angles by name, base x y z roll pitch yaw, links added so far"""
    def __init__(self, robot, q=None, base=None, added=()):
        self.robot = robot
        self.q = dict.fromkeys(robot.movable, 0.0)
        if q:
            self.q.update(q)
        self.base = np.array(base if base is not None else np.zeros(6), float)
        self.added = list(added)  # (name, parent, xyz, rpy)
        self.cache = None

    def copy(self):
        return Config(self.robot, self.q, self.base, self.added)

    def set(self, joints, values, base_type=FIXED):
        n = len(joints)
        for j, v in zip(joints, values):
            self.q[j] = float(v)
        if base_type == PLANER:
            self.base = np.array([values[n], values[n + 1], 0, 0, 0, values[n + 2]], float)
        elif base_type == FLOATING:
            self.base = np.array(values[n:n + 6], float)
        self.cache = None
        return self

    def key(self):
        return repr((sorted(self.q.items()), self.base.tolist(), [(a, b, list(map(float, c)), list(map(float, d))) for a, b, c, d in self.added]))

    def poses(self):
        if self.cache is None:
            rb = self.robot
            P = {rb.root: (self.base[:3].copy(), rpy_matrix(*self.base[3:]))}

            def get(l):
                if l in P:
                    return P[l]
                j = rb.parent_joint[l]
                p, R = get(j["parent"])
                p, R = p + R @ j["p"], R @ j["R"]
                if j["type"] in ("revolute", "continuous"):
                    R = R @ axis_angle(j["axis"], self.q[j["name"]])
                elif j["type"] == "prismatic":
                    p = p + R @ (j["axis"] * self.q[j["name"]])
                P[l] = (p, R)
                return P[l]
            for l in rb.links:
                get(l)
            for name, parent, xyz, r in self.added:
                p, R = P[parent]
                P[name] = (p + R @ np.asarray(xyz, float), R @ rpy_matrix(*r))
            self.cache = P
        return self.cache

    def anchor(self, link):
        """described link an added one is fixed to"""
        par = {n: p for n, p, _, _ in self.added}
        while link in par:
            link = par[link]
        return link

    def ancestors(self, link):
        s, l = set(), self.anchor(link)
        while l in self.robot.parent_joint:
            j = self.robot.parent_joint[l]
            s.add(j["name"])
            l = j["parent"]
        return s

    def twist(self, link, joints, with_base, point=None):
        """columns (velocity of the point or link origin, angular velocity) per coordinate"""
        P = self.poses()
        x = P[link][0] if point is None else point
        anc = self.ancestors(link)
        cols = []
        for j in joints:
            d = self.robot.joints[j]
            if j not in anc:
                cols.append(np.zeros(6))
                continue
            pc, Rc = P[d["child"]]
            a = Rc @ d["axis"]
            if d["type"] == "prismatic":
                cols.append(np.hstack([a, np.zeros(3)]))
            else:
                cols.append(np.hstack([np.cross(a, x - pc), a]))
        if with_base:
            for k in range(3):
                e = np.zeros(6)
                e[k] = 1
                cols.append(e)
            r, p, y = self.base[3:]
            Rz, Ry = rpy_matrix(0, 0, y), rpy_matrix(0, p, 0)
            for a in (Rz @ Ry @ np.array([1.0, 0, 0]), Rz @ np.array([0, 1.0, 0]), np.array([0, 0, 1.0])):
                cols.append(np.hstack([np.cross(a, x - self.base[:3]), a]))
        return np.array(cols).T.reshape(6, len(cols))

    def value(self, link, rot):
        p, R = self.poses()[link]
        if rot == RPY:
            return np.hstack([p, matrix_rpy(R)])
        if rot == XYZW:
            return np.hstack([p, matrix_quat(R)])
        return p.copy()

    def jacobian(self, link, joints, rot, with_base, quat=None):
        t = self.twist(link, joints, with_base)
        if rot == IGNORE:
            return t[:3]
        if rot == RPY:
            r, p, y = matrix_rpy(self.poses()[link][1])
            E = np.array([[math.cos(y) * math.cos(p), -math.sin(y), 0], [math.sin(y) * math.cos(p), math.cos(y), 0], [-math.sin(p), 0, 1]])
            return np.vstack([t[:3], np.linalg.solve(E, t[3:])])
        x, y, z, w = quat
        G = 0.5 * np.array([[w, z, -y], [-z, w, x], [y, -x, w], [-x, -y, -z]])
        return np.vstack([t[:3], G @ t[3:]])

    def regular(self, link):
        """away from the singularity of roll, pitch, yaw"""
        return abs(self.poses()[link][1][2, 0]) < 0.9997

    def com(self):
        P, s = self.poses(), np.zeros(3)
        for l, d in self.robot.links.items():
            if d:
                s += d[0] * (P[l][0] + P[l][1] @ d[1])
        return s / self.robot.mass

    def com_jacobian(self, joints, with_base):
        P, s = self.poses(), 0
        for l, d in self.robot.links.items():
            if d:
                s = s + d[0] * self.twist(l, joints, with_base, P[l][0] + P[l][1] @ d[1])[:3]
        return s / self.robot.mass

    def inertia(self):
        P, c, I = self.poses(), self.com(), np.zeros((3, 3))
        for l, d in self.robot.links.items():
            if d:
                R = P[l][1] @ d[2]
                v = P[l][0] + P[l][1] @ d[1] - c
                I += R @ d[3] @ R.T + d[0] * (v @ v * np.eye(3) - np.outer(v, v))
        return I


def select_base(J, n, base_type):
    """columns of a floating-base Jacobian that belong to a base type"""
    if base_type == PLANER:
        return np.hstack([J[:, :n], J[:, [n, n + 1, n + 5]]])
    return J


# ---------------------------------------------------------------------------- small robots
def _link(n, inert=None):
    if inert is None:
        return "<link name='%s'/>" % n
    m, xyz, rpy, I = inert
    return ("<link name='%s'><inertial><mass value='%g'/><origin xyz='%s' rpy='%s'/><inertia ixx='%g' ixy='%g' ixz='%g' iyy='%g' iyz='%g' izz='%g'/></inertial></link>"
            % ((n, m, xyz, rpy) + tuple(I)))


def _joint(n, t, p, c, xyz="0 0 0", rpy="0 0 0", axis="0 0 1", limit="lower='-2' upper='1.5' effort='3' velocity='4'"):
    return ("<joint name='%s' type='%s'><parent link='%s'/><child link='%s'/><origin xyz='%s' rpy='%s'/>%s%s</joint>"
            % (n, t, p, c, xyz, rpy, "" if t == "fixed" else "<axis xyz='%s'/>" % axis, "" if t in ("fixed", "continuous") else "<limit %s/>" % limit))


I1 = (1, 0.1, 0.2, 2, -0.3, 3)
I2 = (0.5, 0, 0.1, 0.7, 0.05, 0.9)
TEXTS = {
    # alphabetical order differs from the order along the chain everywhere
    "chain": "<robot name='chain'>" + _link("root") + _link("mid", (2, "0.1 -0.2 0.3", "0.4 0.1 -0.2", I1)) + _link("a_end", (1.5, "0 0.1 0.2", "0 0 0", I2)) + _link("tip")
    + _joint("z1", "revolute", "root", "mid", "0.3 0 0.2", "0.1 0.2 0.3", "0 1 0") + _joint("a2", "continuous", "mid", "a_end", "0 0.4 0.1", "-0.3 0 0.2", "0.6 0 0.8")
    + _joint("m3", "prismatic", "a_end", "tip", "0.1 0.1 0.1", "0 0.5 0", "0 -0.6 0.8") + "</robot>",
    "tree": "<robot name='tree'>" + _link("torso", (5, "0.02 0.03 0.4", "0.3 -0.2 0.5", I1)) + _link("l_arm", (1, "0.2 0 0", "0 0 0", I2)) + _link("l_hand", (0.5, "0 0.1 0", "0.7 0 0", I2))
    + _link("r_arm", (1, "-0.2 0 0", "0 0.3 0", I2)) + _link("r_hand") + _link("cam")
    + _joint("r1", "revolute", "torso", "r_arm", "0 -0.3 0.5", "0 0 0.4", "0 0 1") + _joint("r2", "revolute", "r_arm", "r_hand", "0.3 0 0", "0.2 0 0", "1 0 0")
    + _joint("l1", "revolute", "torso", "l_arm", "0 0.3 0.5", "0 0.3 0", "0 0.6 -0.8") + _joint("l2", "prismatic", "l_arm", "l_hand", "0.3 0 0", "0 0 -0.6", "1 0 0")
    + _joint("neck", "fixed", "torso", "cam", "0 0 0.8", "0.1 0.4 0") + "</robot>",
    "nomass_root": "<robot name='n'>" + _link("w") + _link("base", (3, "0 0 0.1", "0 0 0", I1)) + _link("b", (2, "0.1 0 0", "0 0.9 0", I2))
    + _joint("f", "fixed", "w", "base", "0.5 0 0", "0 0 1.2") + _joint("j", "continuous", "base", "b", "0 0 1", "0.3 0 0", "0 1 0") + "</robot>",
}


def _big():
    """40 movable joints, 60 links, neither ids nor the document in the order of the tree"""
    n, L, J = 60, [], []
    for k in range(n):
        L.append(_link("k%02d" % (k * 37 % 60), (0.2 + 0.05 * k, "0.0%d 0.02 -0.01" % (k % 7), "0.%d 0.1 0" % (k % 5), I1 if k % 2 else I2) if k % 3 else None))
    for k in range(1, n):
        par = k - 1 if k % 10 else k // 2
        t = ("revolute", "fixed", "continuous", "prismatic", "revolute", "fixed")[k % 6]
        J.append(_joint("q%02d" % (k * 23 % 59), t, "k%02d" % (par * 37 % 60), "k%02d" % (k * 37 % 60), "0.0%d 0.03 0.0%d" % (k % 4, (k + 1) % 6), "0.0%d 0.02 -0.1" % (k % 9),
                        ("0 1 0", "0.6 0 0.8", "0 -0.6 0.8", "1 0 0")[k % 4]))
    return "<robot name='big'>" + "".join(L[::2] + J[::-1] + L[1::2]) + "</robot>"


def big():
    return Robot(_big())


def robots():
    return {n: Robot(t) for n, t in TEXTS.items()}
