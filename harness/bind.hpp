// Binds the reference robot to the real KinematicModel (public API only).
#pragma once
#include "ref.hpp"
#include "tinyfk.hpp"
#include <memory>

namespace bind {
using namespace ref;
typedef tinyfk::KinematicModel KM;
typedef tinyfk::RotationType RT;

inline tinyfk::Transform to_tf(const Base &b) {
  tinyfk::Transform t;
  t.position.x = b.xyz[0];
  t.position.y = b.xyz[1];
  t.position.z = b.xyz[2];
  t.rotation.setFromRPY(b.rpy[0], b.rpy[1], b.rpy[2]);
  return t;
}

// angles inside and beyond a half, one, two and many turns
static const double TURN[] = {0, 0.6, -2.5, 3.5, -3.5, 5, 6.5, -6.5, 7.9, 9.5, -13, 100.25, -12345.678};
enum { NTURN = sizeof TURN / sizeof *TURN };
inline A3 turns(mc::Digits &d) {
  A3 v;
  for (double &x : v)
    x = TURN[d.pick(NTURN)];
  return v;
}

struct Sys {
  Robot rb;
  std::unique_ptr<KM> m;
  std::vector<size_t> lid;  // id of every link of rb (described, then added)
  std::vector<long> jid;    // id of every joint, -1 when fixed
  std::vector<LD> q;        // current configuration of the reference, by joint
  Base base;

  explicit Sys(const Robot &r) : rb(r), m(new KM(r.urdf())) { bindids(); }
  Sys(const Robot &r, const std::string &text) : rb(r), m(new KM(text)) { bindids(); }
  Sys() {}
  void bindids() {
    std::vector<std::string> ln;
    for (int i = 0; i < rb.n_all(); i++)
      ln.push_back(rb.link_name(i));
    lid = m->get_link_ids(ln);
    jid.clear();
    for (auto &j : rb.joints)
      jid.push_back(j.movable() ? (long)m->get_joint_ids({j.name})[0] : -1);
    if (q.size() != rb.joints.size())
      q.assign(rb.joints.size(), 0);
  }
  std::vector<size_t> movable_ids() const {
    std::vector<size_t> v;
    for (auto j : jid)
      if (j >= 0)
        v.push_back((size_t)j);
    return v;
  }
  std::vector<int> movable() const {
    std::vector<int> v;
    for (size_t j = 0; j < jid.size(); j++)
      if (jid[j] >= 0)
        v.push_back((int)j);
    return v;
  }
  void set(const std::vector<LD> &qq) { // all movable joints
    std::vector<double> a;
    for (size_t j = 0; j < jid.size(); j++)
      if (jid[j] >= 0)
        a.push_back((double)qq[j]);
    q = qq;
    m->set_joint_angles(movable_ids(), a);
  }
  void set_base(const Base &b) {
    base = b;
    m->set_base_pose(to_tf(b));
  }
};

inline Iso<LD> got_pose(const tinyfk::Transform &t) {
  Iso<LD> g;
  g.R = quat(t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w);
  g.p = V3<LD>(t.position.x, t.position.y, t.position.z);
  return g;
}

inline bool cmp_pose(mc::Ctx &c, const std::string &key, const tinyfk::Transform &t, const Iso<LD> &w,
                     const std::string &what, double tol = 1e-9) {
  c.comparisons++;
  double n2 = t.rotation.x * t.rotation.x + t.rotation.y * t.rotation.y + t.rotation.z * t.rotation.z +
              t.rotation.w * t.rotation.w;
  LD sc = 1 + fabsl(w.p.x) + fabsl(w.p.y) + fabsl(w.p.z);
  Iso<LD> g = got_pose(t);
  LD dp = fabsl(g.p.x - w.p.x) + fabsl(g.p.y - w.p.y) + fabsl(g.p.z - w.p.z);
  LD dr = mdiff(g.R, w.R);
  bool ok = std::fabs(n2 - 1) <= 1e-9 && dp <= tol * sc && dr <= tol;
  if (!ok) {
    char b[400];
    snprintf(b, sizeof b,
             " pose differs: position (%.12Lg %.12Lg %.12Lg) expected (%.12Lg %.12Lg %.12Lg), rotation off by %.3Lg, "
             "|quat|^2-1=%.3g",
             g.p.x, g.p.y, g.p.z, w.p.x, w.p.y, w.p.z, dr, n2 - 1);
    c.fail(key, what + b);
  }
  return ok;
}

// compares get_jacobian with the derivative; joints: indices into rb.joints
inline bool cmp_jac(mc::Ctx &c, const std::string &key, Sys &s, int link, const std::vector<int> &joints, RT rt,
                    bool with_base, const std::string &what, double tol = 1e-8) {
  std::vector<size_t> ids;
  for (int j : joints)
    ids.push_back((size_t)s.jid[j]);
  Eigen::MatrixXd J = s.m->get_jacobian(s.lid[link], ids, rt, with_base);
  int rows = rt == RT::IGNORE ? 3 : rt == RT::RPY ? 6 : 7;
  int cols = (int)joints.size() + (with_base ? 6 : 0);
  c.comparisons++;
  if (J.rows() != rows || J.cols() != cols) {
    c.fail(key, what + " Jacobian has shape " + std::to_string(J.rows()) + "x" + std::to_string(J.cols()));
    return false;
  }
  tinyfk::Transform t;
  s.m->get_link_pose(s.lid[link], t);
  bool ok = true;
  Iso<LD> basev = base_iso(s.base);
  std::vector<D> qd;
  for (auto v : s.q)
    qd.push_back(D(v));
  for (int k = 0; k < cols && ok; k++) {
    Iso<D> b = lift(basev);
    bool zero = false;
    if (k < (int)joints.size()) {
      qd[joints[k]].d = 1;
      zero = !s.rb.moves(joints[k], link);
    } else {
      b = base_dual(s.base, k - (int)joints.size());
    }
    Iso<D> p = s.rb.pose<D>(link, qd, b);
    if (k < (int)joints.size())
      qd[joints[k]].d = 0;
    LD want[7] = {p.p.x.d, p.p.y.d, p.p.z.d, 0, 0, 0, 0};
    bool skiprot = false;
    if (rt == RT::RPY) {
      if (fabsl(p.R.m[2][0].v) > 0.9999L) {
        skiprot = true;
        c.skipped++;
      } else {
        D r[3];
        get_rpy(p.R, r);
        for (int i = 0; i < 3; i++)
          want[3 + i] = r[i].d;
      }
    } else if (rt == RT::XYZW) {
      V3<LD> w = omega(p.R);
      const auto &Q = t.rotation; // reported quaternion, sign included
      want[3] = 0.5L * (w.x * Q.w + w.y * Q.z - w.z * Q.y);
      want[4] = 0.5L * (-w.x * Q.z + w.y * Q.w + w.z * Q.x);
      want[5] = 0.5L * (w.x * Q.y - w.y * Q.x + w.z * Q.w);
      want[6] = 0.5L * (-w.x * Q.x - w.y * Q.y - w.z * Q.z);
    }
    for (int i = 0; i < (skiprot ? 3 : rows); i++) {
      LD sc = 1 + fabsl(want[i]);
      // base orientation columns: the library may differentiate numerically
      LD tl = k >= (int)joints.size() + 3 ? std::max<LD>(tol, 3e-6L) : tol;
      bool bad = zero ? J(i, k) != 0.0 : !(fabsl(J(i, k) - want[i]) <= tl * sc);
      if (bad) {
        char bb[200];
        snprintf(bb, sizeof bb, " Jacobian row %d column %d is %.12g, derivative is %.12Lg", i, k, J(i, k), want[i]);
        c.fail(key, what + bb);
        ok = false;
        break;
      }
    }
  }
  return ok;
}

// ---------------------------------------------------------------- generators
// Trees: node 0 is the root, parent[i] < i for i >= 1; (n-1)! of them.
inline uint64_t ntrees(int n) {
  uint64_t r = 1;
  for (int i = 2; i < n; i++)
    r *= i;
  return r;
}
inline std::vector<int> tree(int n, uint64_t i) {
  std::vector<int> p(n, -1);
  for (int k = 1; k < n; k++) {
    p[k] = (int)(i % k);
    i /= k;
  }
  return p;
}
// the order-th naming of n nodes: permutation index
inline std::vector<int> perm(int n, uint64_t i) {
  std::vector<int> a, r;
  for (int k = 0; k < n; k++)
    a.push_back(k);
  for (int k = n; k >= 1; k--) {
    int d = (int)(i % k);
    i /= k;
    r.push_back(a[d]);
    a.erase(a.begin() + d);
  }
  return r;
}
inline uint64_t nfact(int n) { return n <= 1 ? 1 : n * nfact(n - 1); }

static const A3 ORG[4][2] = {{{{0, 0, 0}}, {{0, 0, 0}}},
                             {{{0.3, -0.2, 0.5}}, {{0, 0, 0}}},
                             {{{-0.1, 0.4, 0.25}}, {{0.4, -0.7, 1.1}}},
                             {{{0.2, 0, -0.3}}, {{1.5707963267948966, 0, -1.5707963267948966}}}};
static const A3 AXS[6] = {{{1, 0, 0}},  {{0, 1, 0}},  {{0, 0, 1}},
                          {{0, 0, -1}}, {{0.48, -0.6, 0.64}}, {{-0.6, 0, 0.8}}};
// every lattice direction of the unit cube, then directions next to the coordinate axes
const int NDIR = 26 + 12;
inline A3 direction(int k) {
  double v[3];
  if (k < 26) {
    int c = k < 13 ? k : k + 1;
    for (int i = 0; i < 3; i++, c /= 3)
      v[i] = c % 3 - 1;
  } else {
    k -= 26;
    for (int i = 0; i < 3; i++)
      v[i] = 0;
    v[k / 2 % 3] = k & 1 ? -1 : 1;
    v[(k / 2 + 1) % 3] = k < 6 ? 1e-4 : -1e-9;
  }
  double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  A3 a;
  for (int i = 0; i < 3; i++)
    a[i] = v[i] / n + 0.0;
  return a;
}
static const double ANG[6] = {0, 0.7, -1.3, 3.14159265358979312, 2.9, -7.0};
static const Base BASES[6] = {{},
                              {{{1.5, -0.5, 0.7}}, {{0, 0, 0}}},
                              {{{-0.4, 0.9, 0.2}}, {{0.3, -0.8, 2.2}}},
                              {{{0.1, 0.2, 0.3}}, {{0, 0, 3.14159265358979312}}},
                              {{{0, 0, 1}}, {{3.14159265358979312, 0.2, -1.0}}},
                              {{{2, 0, 0}}, {{-4.0, 1.2, 9.0}}}};

// very small and very large values
static const A3 SORG[6][2] = {{{{0, 0, 0}}, {{0, 0, 0}}},
                              {{{1e-5, 0, -2e-6}}, {{1e-4, 0, 0}}},
                              {{{40, -3, 0.1}}, {{0, 0.012, 0}}},
                              {{{0, 0, 700}}, {{0.3, -0.002, 3e-7}}},
                              {{{0.2, 0.1, 0}}, {{0, 0, -1e-3}}},
                              {{{-25, 60, 1}}, {{2.0, -0.9, 0.01}}}};
static const double SVAL[10] = {0, 1e-7, -1e-4, 0.001, 0.012, -0.05, 12, -31.4, 250, 3.1415};
// the s-th joint with such an origin
inline void apply_scale(Joint &j, int type, int org, int ax) {
  j.type = type;
  j.xyz = SORG[org][0];
  j.rpy = SORG[org][1];
  j.axis = AXS[ax];
  j.has_limit = type != CONT;
}

// coordinates of which only those in a mask are not zero
inline A3 masked(int mask, double a, double b, double c) {
  return A3{{mask & 1 ? a : 0.0, mask & 2 ? b : 0.0, mask & 4 ? c : 0.0}};
}
inline Base masked_base(int mask) {
  Base b;
  b.xyz = masked(mask, 0.5, -1.25, 0.75);
  b.rpy = masked(mask >> 3, 0.4, -0.9, 1.7);
  return b;
}
inline void masked_origin(Joint &j, int mask) {
  j.xyz = masked(mask, -0.3, 0.6, 0.2);
  j.rpy = masked(mask >> 3, -0.5, 0.8, 1.2);
}

// joint kinds: type x origin x axis; axis index 6 = axis element omitted
struct Kind {
  int type, org, ax;
};
inline void apply_kind(Joint &j, const Kind &k, int salt = 0) {
  j.type = k.type;
  j.xyz = ORG[k.org][0];
  j.rpy = ORG[k.org][1];
  // distinct joints get distinct offsets so that mixed-up joints show
  for (int i = 0; i < 3; i++)
    if (k.org != 0)
      j.xyz[i] += 0.01 * salt * (i + 1);
  if (k.ax < 6)
    j.axis = AXS[k.ax];
  else
    j.has_axis = false;
  if (k.type == CONT)
    j.has_limit = false;
}
inline std::vector<Kind> kinds_full() {
  std::vector<Kind> v;
  for (int t = 0; t < 3; t++)
    for (int o = 0; o < 4; o++)
      for (int a = 0; a < 7; a++)
        v.push_back(Kind{t, o, a});
  for (int o = 0; o < 4; o++)
    v.push_back(Kind{FIX, o, 0});
  return v;
}
inline std::vector<Kind> kinds_mid() {
  return {{REV, 2, 4}, {REV, 1, 2}, {CONT, 3, 1}, {CONT, 0, 6}, {PRIS, 2, 5}, {PRIS, 1, 3}, {FIX, 2, 0}, {FIX, 1, 0}};
}
inline std::vector<Kind> kinds_small() { return {{REV, 2, 4}, {CONT, 1, 1}, {PRIS, 2, 5}, {FIX, 2, 0}}; }

// robot over a given tree; naming: permutation of link names / joint names,
// so that neither ids nor document order follow the tree order
inline Robot make(const std::vector<int> &par, const std::vector<Kind> &ks, uint64_t naming, bool masses = false) {
  Robot r;
  int n = (int)par.size();
  auto p = perm(n, naming);
  for (int i = 0; i < n; i++) {
    Link l;
    l.name = std::string("L") + (char)('a' + p[i] / 26) + (char)('a' + p[i] % 26);
    if (masses) {
      l.inertial = true;
      l.mass = 0.5 + 0.7 * i;
      l.com = A3{{0.1 * i, -0.05, 0.2}};
      l.crpy = A3{{0.2 * i, 0.3, -0.4}};
      double I[6] = {0.3 + 0.1 * i, 0.02, -0.03, 0.4, 0.05, 0.35};
      for (int k = 0; k < 6; k++)
        l.I[k] = I[k];
    }
    r.links.push_back(l);
  }
  for (int i = 1; i < n; i++) {
    Joint j;
    j.name = std::string("J") + (char)('a' + (n - 1 - p[i]) / 26) + (char)('a' + (n - 1 - p[i]) % 26);
    j.parent = par[i];
    j.child = i;
    apply_kind(j, ks[i - 1], i);
    r.joints.push_back(j);
  }
  return r;
}
inline std::string describe(const Robot &r, const std::vector<LD> *q = nullptr, const Base *b = nullptr) {
  std::string s = r.urdf();
  if (q) {
    s += " q=[";
    for (size_t j = 0; j < q->size(); j++)
      s += r.joints[j].name + "=" + num((double)(*q)[j]) + " ";
    s += "]";
  }
  if (b)
    s += " base xyz=" + vec(b->xyz) + " rpy=" + vec(b->rpy);
  return s;
}
} // namespace bind
