// Operation histories on a real model next to the reference state.
#pragma once
#include "special.hpp"

namespace bind {
inline bool vnear(mc::Ctx &c, const std::string &key, double x, double y, double z, const V3<LD> &w, const std::string &what, double tol = 1e-9) {
  c.comparisons++;
  LD sc = 1 + fabsl(w.x) + fabsl(w.y) + fabsl(w.z);
  LD d = fabsl(x - w.x) + fabsl(y - w.y) + fabsl(z - w.z);
  if (d <= tol * sc)
    return true;
  char b[300];
  snprintf(b, sizeof b, " got (%.12g %.12g %.12g) expected (%.12Lg %.12Lg %.12Lg)", x, y, z, w.x, w.y, w.z);
  c.fail(key, what + b);
  return false;
}
inline bool cmp_com(mc::Ctx &c, Sys &s, const std::string &key, const std::string &what) {
  if (s.rb.mass() <= 0)
    return true;
  auto g = s.m->get_com();
  return vnear(c, key, g.x, g.y, g.z, s.rb.com<LD>(s.q, base_iso(s.base)), what + " centre of mass");
}
inline bool cmp_comjac(mc::Ctx &c, Sys &s, const std::vector<int> &joints, bool wb, const std::string &key, const std::string &what) {
  if (s.rb.mass() <= 0)
    return true;
  std::vector<size_t> ids;
  for (int j : joints)
    ids.push_back((size_t)s.jid[j]);
  Eigen::MatrixXd J = s.m->get_com_jacobian(ids, wb);
  int cols = (int)joints.size() + (wb ? 6 : 0);
  c.comparisons++;
  if (J.rows() != 3 || J.cols() != cols) {
    c.fail(key, what + " centre-of-mass Jacobian has shape " + std::to_string(J.rows()) + "x" + std::to_string(J.cols()));
    return false;
  }
  std::vector<D> qd;
  for (auto v : s.q)
    qd.push_back(D(v));
  Iso<LD> bv = base_iso(s.base);
  for (int k = 0; k < cols; k++) {
    Iso<D> b = lift(bv);
    if (k < (int)joints.size())
      qd[joints[k]].d = 1;
    else
      b = base_dual(s.base, k - (int)joints.size());
    V3<D> p = s.rb.com<D>(qd, b);
    if (k < (int)joints.size())
      qd[joints[k]].d = 0;
    if (!vnear(c, key, J(0, k), J(1, k), J(2, k), V3<LD>(p.x.d, p.y.d, p.z.d), what + " centre-of-mass Jacobian column " + std::to_string(k),
               k >= (int)joints.size() + 3 ? 3e-6 : 1e-8))
      return false;
  }
  return true;
}
inline bool cmp_inertia(mc::Ctx &c, Sys &s, const std::string &key, const std::string &what) {
  if (s.rb.mass() <= 0)
    return true;
  Eigen::Matrix3d I = s.m->get_total_inertia_matrix();
  M3<LD> w = s.rb.inertia(s.q, base_iso(s.base));
  // relative to the size of the matrix; where masses sit far away the
  // subtraction of large terms may cost digits
  LD tl = 0, far = 1;
  for (int i = 0; i < 3; i++)
    tl += 1e-9L * fabsl(w.m[i][i]);
  for (int l = 0; l < (int)s.rb.links.size(); l++) {
    V3<LD> p = s.rb.pose<LD>(l, s.q, base_iso(s.base)).p;
    far = std::max(far, p.x * p.x + p.y * p.y + p.z * p.z);
  }
  tl += 1e-12L * s.rb.mass() * far;
  c.comparisons++;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (!(fabsl(I(i, j) - w.m[i][j]) <= tl)) {
        char b[160];
        snprintf(b, sizeof b, " total inertia (%d,%d) is %.12g, expected %.12Lg", i, j, I(i, j), w.m[i][j]);
        c.fail(key, what + b);
        return false;
      }
  return true;
}
inline bool cmp_link(mc::Ctx &c, Sys &s, int l, const std::string &key, const std::string &what) {
  tinyfk::Transform t;
  s.m->get_link_pose(s.lid[l], t);
  return cmp_pose(c, key, t, s.rb.pose<LD>(l, s.q, base_iso(s.base)), what + " link " + s.rb.link_name(l));
}
inline bool cmp_angles(mc::Ctx &c, Sys &s, const std::string &key, const std::string &what) {
  auto a = s.m->get_joint_angles(s.movable_ids());
  auto mv = s.movable();
  c.comparisons++;
  if (a.size() != mv.size()) {
    c.fail(key, what + " joint angle count");
    return false;
  }
  for (size_t k = 0; k < mv.size(); k++)
    if (a[k] != (double)s.q[mv[k]]) {
      c.fail(key, what + " angle of joint " + s.rb.joints[mv[k]].name + " is " + num(a[k]) + " expected " + num((double)s.q[mv[k]]));
      return false;
    }
  return true;
}
// names and ids of all links and joints; nothing else may have appeared
inline bool cmp_ids(mc::Ctx &c, Sys &s, const std::string &key, const std::string &what) {
  c.comparisons++;
  size_t want = (size_t)s.rb.n_all();
  for (auto &l : s.rb.links)
    want += l.inertial;
  auto names = s.m->get_link_names();
  if (names.size() != want) {
    c.fail(key, what + " number of links is " + std::to_string(names.size()) + " expected " + std::to_string(want));
    return false;
  }
  auto ids = s.m->get_link_ids(names);
  for (size_t i = 0; i < ids.size(); i++)
    if (ids[i] != i) {
      c.fail(key, what + " link name at position " + std::to_string(i) + " (" + names[i] + ") has id " + std::to_string(ids[i]));
      return false;
    }
  for (int l = 0; l < s.rb.n_all(); l++)
    if (s.lid[l] >= names.size() || names[s.lid[l]] != s.rb.link_name(l)) {
      c.fail(key, what + " id of link " + s.rb.link_name(l) + " changed");
      return false;
    }
  auto jn = s.m->get_joint_names();
  auto ji = s.m->get_joint_ids(jn);
  if (jn.size() != s.movable_ids().size()) {
    c.fail(key, what + " number of joints is " + std::to_string(jn.size()));
    return false;
  }
  for (size_t i = 0; i < ji.size(); i++)
    if (ji[i] != i) {
      c.fail(key, what + " joint name/id mismatch");
      return false;
    }
  for (size_t j = 0; j < s.jid.size(); j++)
    if (s.jid[j] >= 0 && jn.at(s.jid[j]) != s.rb.joints[j].name) {
      c.fail(key, what + " id of joint changed");
      return false;
    }
  return true;
}
inline bool cmp_mass(mc::Ctx &c, Sys &s, const std::string &key, const std::string &what) {
  return c.near(key, s.m->total_mass_, s.rb.mass(), 1e-12, what + " total mass");
}
// everything, in an order chosen by `order`
inline void cmp_all(mc::Ctx &c, Sys &s, int order, const std::string &key, const std::string &what) {
  auto mv = s.movable();
  auto poses = [&]() {
    int n = s.rb.n_all();
    for (int k = 0; k < n; k++)
      cmp_link(c, s, order & 1 ? n - 1 - k : k, key, what);
  };
  auto jacs = [&]() {
    for (int l = 0; l < s.rb.n_all(); l++)
      cmp_jac(c, key, s, l, mv, (l + order) % 3 == 0 ? RT::IGNORE : (l + order) % 3 == 1 ? RT::RPY : RT::XYZW, (l + order / 2) & 1, what + " link " + s.rb.link_name(l));
  };
  auto com = [&]() {
    cmp_com(c, s, key, what);
    cmp_comjac(c, s, mv, order & 1, key, what);
    cmp_inertia(c, s, key, what);
  };
  switch (order % 3) {
  case 0: poses(), jacs(), com(); break;
  case 1: jacs(), com(), poses(); break;
  default: com(), poses(), jacs();
  }
  cmp_angles(c, s, key, what);
  cmp_mass(c, s, key, what);
  cmp_ids(c, s, key, what);
}
inline uint64_t state_hash(const Sys &s, uint64_t h) {
  for (auto v : s.q)
    h = mc::mixd(h, (double)v);
  for (int k = 0; k < 3; k++)
    h = mc::mixd(mc::mixd(h, s.base.xyz[k]), s.base.rpy[k]);
  for (auto &a : s.rb.added)
    h = mc::mixs(mc::mix(h, a.parent), a.name);
  return h;
}
// adds a link to both; parent is an index into the combined list
inline void do_add(mc::Ctx &c, Sys &s, int parent, const A3 &xyz, const A3 &rpy, const std::string &name, bool as_pose, const std::string &key) {
  size_t before = s.m->get_link_names().size();
  std::array<double, 3> p{{xyz[0], xyz[1], xyz[2]}}, r{{rpy[0], rpy[1], rpy[2]}};
  if (as_pose) {
    Base b;
    b.xyz = xyz;
    b.rpy = rpy;
    s.m->add_new_link(name, s.lid[parent], to_tf(b));
  } else
    s.m->add_new_link(name, s.lid[parent], p, r);
  s.rb.added.push_back(Added{name, parent, xyz, rpy});
  size_t id = s.m->get_link_ids({name})[0];
  s.lid.push_back(id);
  c.eqi(key, (long long)id, (long long)before, "id of added link " + name);
}
} // namespace bind
