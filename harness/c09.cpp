// C09: adding links extends the model without disturbing it.
#include "hist.hpp"
using namespace bind;
static const A3 OX[4] = {{{0, 0, 0}}, {{0.3, -0.1, 0.2}}, {{-1, 2, 0.5}}, {{0, 0, -0.4}}};
static const A3 OR[4] = {{{0, 0, 0}}, {{0.4, -0.9, 2.0}}, {{3.14159265358979312, 0, 0}}, {{0, 0.5, -3.5}}};

// a snapshot of everything the model says about what is there
struct Snap {
  std::vector<std::string> ln, jn;
  std::vector<tinyfk::Transform> poses;
  double mass;
  std::vector<double> com, q;
  std::vector<Eigen::MatrixXd> jac;
  Eigen::MatrixXd comj;
  Eigen::Matrix3d I;
};
static Snap snap(Sys &s, size_t nlinks, bool mass) {
  Snap r;
  r.ln = s.m->get_link_names();
  r.jn = s.m->get_joint_names();
  r.ln.resize(std::min(r.ln.size(), nlinks));
  auto ids = s.movable_ids();
  for (size_t l = 0; l < r.ln.size(); l++) {
    tinyfk::Transform t;
    s.m->get_link_pose(l, t);
    r.poses.push_back(t);
    r.jac.push_back(s.m->get_jacobian(l, ids, l % 2 ? RT::XYZW : RT::RPY, l % 3 == 0));
  }
  r.mass = s.m->total_mass_;
  r.q = s.m->get_joint_angles(ids);
  if (mass) {
    auto g = s.m->get_com();
    r.com = {g.x, g.y, g.z};
    r.comj = s.m->get_com_jacobian(ids, true);
    r.I = s.m->get_total_inertia_matrix();
  }
  return r;
}
static void same(mc::Ctx &c, const Snap &a, const Snap &b, const std::string &w) {
  c.comparisons += a.poses.size() * 2 + 6;
  if (a.ln != b.ln)
    c.fail("disturbed", w + ": link names or ids changed");
  if (a.jn != b.jn)
    c.fail("disturbed", w + ": joint names or ids changed");
  if (a.mass != b.mass || a.q != b.q)
    c.fail("disturbed", w + ": mass or joint angles changed");
  for (size_t i = 0; i < std::min(a.poses.size(), b.poses.size()); i++) {
    auto &p = a.poses[i], &q = b.poses[i];
    double e = std::fabs(p.position.x - q.position.x) + std::fabs(p.position.y - q.position.y) + std::fabs(p.position.z - q.position.z) +
               std::fabs(p.rotation.x - q.rotation.x) + std::fabs(p.rotation.y - q.rotation.y) + std::fabs(p.rotation.z - q.rotation.z) + std::fabs(p.rotation.w - q.rotation.w);
    if (!(e <= 1e-10))
      c.fail("disturbed", w + ": pose of link " + a.ln[i] + " changed");
    if (a.jac[i].rows() != b.jac[i].rows() || a.jac[i].cols() != b.jac[i].cols() || !((a.jac[i] - b.jac[i]).norm() <= 1e-8))
      c.fail("disturbed", w + ": Jacobian of link " + a.ln[i] + " changed");
  }
  for (size_t i = 0; i < a.com.size(); i++)
    if (!(std::fabs(a.com[i] - b.com[i]) <= 1e-10))
      c.fail("disturbed", w + ": centre of mass changed");
  if (!a.com.empty() && (!((a.comj - b.comj).norm() <= 1e-8) || !((a.I - b.I).norm() <= 1e-8)))
    c.fail("disturbed", w + ": centre-of-mass Jacobian or inertia changed");
}
static Robot robot(int k) {
  if (k == 0)
    return make({-1, 0, 1}, {Kind{REV, 1, 2}, Kind{PRIS, 2, 4}}, 2, true);
  if (k == 1)
    return make({-1, 0, 0}, {Kind{CONT, 2, 4}, Kind{REV, 1, 0}}, 4, false);
  if (k == 2)
    return make({-1, 0, 1}, {Kind{FIX, 2, 0}, Kind{REV, 3, 1}}, 5, true);
  return make({-1}, {}, 0, k == 3); // a single link
}
static void rejected(mc::Ctx &c, Sys &s, const std::string &name, size_t parent, const std::string &w) {
  size_t n = s.m->get_link_names().size();
  bool mass = s.rb.mass() > 0;
  Snap a = snap(s, n + 5, mass);
  bool th = false;
  try {
    s.m->add_new_link(name, parent, {{0.5, 0.5, 0.5}}, {{0.1, 0.1, 0.1}});
  } catch (const std::exception &) {
    th = true;
  }
  c.step();
  c.check("taken-accepted", th, w + ": taken name " + name + " was accepted");
  same(c, a, snap(s, n + 5, mass), w + ": rejected addition");
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  // every sequence of additions: parent = any existing link (described, helper or added), offsets vary;
  // in between: nothing / queries / new configuration (per position)
  auto nparents = [](int rob, int k) {
    Robot r = robot(rob);
    int h = 0;
    for (auto &l : r.links)
      h += l.inertial;
    return (int)r.links.size() + h + k;
  };
  unsigned depth = thorough ? 4 : 3;
  for (int rob = 0; rob < 5; rob++) {
    uint64_t sz = 1;
    for (unsigned k = 0; k < depth; k++)
      sz *= nparents(rob, (int)k);
    uint64_t nb = mc::ipow(4, depth - 1) * 4;
    f.push_back({"additions-robot" + std::to_string(rob), sz * nb, [=](uint64_t i, mc::Ctx &c) {
                   mc::Digits d(i);
                   Robot r = robot(rob);
                   Sys s(r);
                   bool mass = r.mass() > 0;
                   size_t base_n = s.m->get_link_names().size();
                   if (s.q.size())
                     s.set(std::vector<LD>(s.q.size(), 0.4L));
                   c.note = "";
                   for (unsigned k = 0; k < depth; k++) {
                     int between = d.pick(4);
                     size_t pid = d.pick(nparents(rob, k)); // any id
                     std::string nm = (i & 1) ? "zz" + std::to_string(k) : "a" + std::to_string(9 - k);
                     c.note += " add(" + nm + " under id " + std::to_string(pid) + ")/" + std::to_string(between);
                     A3 x = OX[(i + k) % 4], o = OR[(i / 4 + k * 3) % 4];
                     size_t n0 = s.m->get_link_names().size();
                     Snap before;
                     bool look = between & 1;
                     if (look)
                       before = snap(s, n0, mass);
                     // the parent may be a helper link: then the offset is checked against its reported pose
                     int par = -1;
                     for (int l = 0; l < s.rb.n_all(); l++)
                       if (s.lid[l] == pid)
                         par = l;
                     if (par >= 0)
                       do_add(c, s, par, x, o, nm, k & 1, "id");
                     else {
                       // locate the described link whose helper it is: by being rigidly attached; ask the model
                       tinyfk::Transform ph;
                       s.m->get_link_pose(pid, ph);
                       Base b;
                       b.xyz = x;
                       b.rpy = o;
                       s.m->add_new_link(nm, pid, to_tf(b));
                       tinyfk::Transform g;
                       size_t nid = s.m->get_link_ids({nm})[0];
                       c.eqi("id", (long long)nid, (long long)n0, "id of added link");
                       s.m->get_link_pose(nid, g);
                       cmp_pose(c, "helper-child", g, got_pose(ph) * make_iso<LD>(x.data(), o.data()), "link added under a centre-of-mass helper");
                       if (s.q.size()) {
                         std::vector<LD> q(s.q.size(), -0.8L);
                         auto q0 = s.q;
                         s.set(q);
                         s.m->get_link_pose(pid, ph);
                         s.m->get_link_pose(nid, g);
                         cmp_pose(c, "helper-child", g, got_pose(ph) * make_iso<LD>(x.data(), o.data()), "link added under a centre-of-mass helper");
                         s.set(q0);
                       }
                       // keep the reference in step: treat it as one more helper (not tracked), names counted
                       c.step();
                       s.rb.added.push_back(Added{nm, -2, x, o});
                       s.lid.push_back(nid);
                     }
                     c.step();
                     if (look)
                       same(c, before, snap(s, n0, mass), "after adding " + nm);
                     if (between == 2 && s.q.size()) {
                       std::vector<LD> q;
                       for (size_t j = 0; j < s.q.size(); j++)
                         q.push_back(ANG[(i + k + j) % 6]);
                       s.set(q);
                       s.set_base(BASES[(i + k) % 6]);
                     }
                     if (between == 3) {
                       if (s.q.size()) {
                         std::vector<LD> q;
                         for (size_t j = 0; j < s.q.size(); j++)
                           q.push_back(ANG[(i + k + j + 1) % 6]);
                         s.set(q);
                       }
                       rejected(c, s, s.m->get_link_names()[i % s.m->get_link_names().size()], (i / 3) % base_n, "taken name");
                     }
                   }
                   // links hanging (also indirectly) on helpers are only compared relatively; the rest absolutely
                   auto tracked = [&](int l) {
                     for (; l >= 0; l = s.rb.parent_of(l))
                       ;
                     return l == -1;
                   };
                   for (int l = s.rb.n_all() - 1; l >= 0; l--) {
                     if (tracked(l)) {
                       cmp_link(c, s, l, "pose", "at the end");
                       cmp_jac(c, "jacobian", s, l, s.movable(), (l + i) % 2 ? RT::XYZW : RT::RPY, l & 1, "at the end, link " + s.rb.link_name(l));
                     } else if (s.rb.parent_of(l) >= 0) {
                       tinyfk::Transform a, b;
                       s.m->get_link_pose(s.lid[s.rb.parent_of(l)], a);
                       s.m->get_link_pose(s.lid[l], b);
                       auto &ad = s.rb.added[l - s.rb.links.size()];
                       cmp_pose(c, "pose", b, got_pose(a) * make_iso<LD>(ad.xyz.data(), ad.rpy.data()), "link below an added link");
                     }
                   }
                   cmp_ids(c, s, "ids", "at the end");
                   cmp_mass(c, s, "mass", "at the end");
                   cmp_com(c, s, "com", "at the end");
                   cmp_comjac(c, s, s.movable(), true, "com", "at the end");
                   cmp_inertia(c, s, "inertia", "at the end");
                   c.state(state_hash(s, i));
                 }, nullptr});
  }
  // long chains, stars and mixtures of added links
  f.push_back({"many", 7 * 5 * 3, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int shape = d.pick(7), rob = d.pick(5), mode = d.pick(3);
                 Robot r = robot(rob);
                 Sys s(r);
                 int n = shape == 6 ? 300 : shape == 5 ? 150 : 40;
                 for (int k = 0; k < n; k++) {
                   int all = s.rb.n_all(), L = (int)r.links.size();
                   int par = shape == 0 || shape == 5 ? all - 1 : shape == 1 ? L - 1 : shape == 2 ? 0 : shape == 3 ? std::max(L - 1, all - 2) : (k * 13 + 5) % all;
                   do_add(c, s, par, OX[k % 4], OR[(k / 2) % 4], "n" + std::to_string((k * 37) % 307), k & 1, "id");
                   c.step();
                   if (mode == 1)
                     cmp_link(c, s, s.rb.n_all() - 1, "pose", "right after adding");
                   if (mode == 2 && k % 5 == 0) {
                     cmp_link(c, s, (int)L - 1, "pose", "in between");
                     if (s.q.size())
                       s.set(std::vector<LD>(s.q.size(), 0.01L * k));
                   }
                 }
                 if (s.q.size())
                   s.set(std::vector<LD>(s.q.size(), -0.7L));
                 s.set_base(BASES[i % 6]);
                 for (int l = s.rb.n_all() - 1; l >= 0; l -= 1)
                   cmp_link(c, s, l, "pose", "at the end");
                 for (int l = 0; l < s.rb.n_all(); l += 9)
                   cmp_jac(c, "jacobian", s, l, s.movable(), RT::RPY, true, "at the end");
                 cmp_ids(c, s, "ids", "at the end");
                 cmp_com(c, s, "com", "at the end");
                 c.state(state_hash(s, i));
               }, nullptr});
  // every pattern of zero and non-zero offsets of two links, the second below the first, beside it or elsewhere
  f.push_back({"offsets", 64ull * 64 * 3 * 4, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int a = d.pick(64), b = d.pick(64), where = d.pick(3), rob = d.pick(4);
                 Sys s(robot(rob));
                 int L = (int)s.rb.links.size();
                 if (i & 1 && s.q.size())
                   s.set(std::vector<LD>(s.q.size(), 0.4L));
                 do_add(c, s, L - 1, masked(a, 0.3, -0.1, 0.2), masked(a >> 3, 0.4, -0.9, 2.0), "m", i & 2, "id");
                 do_add(c, s, where == 0 ? L : where == 1 ? L - 1 : 0, masked(b, -0.6, 0.5, 0.7), masked(b >> 3, -1.1, 0.3, 0.8), "n", i & 4, "id");
                 if (s.q.size())
                   s.set(std::vector<LD>(s.q.size(), -0.7L));
                 s.set_base(BASES[i % 6]);
                 c.step(2);
                 for (int l = s.rb.n_all() - 1; l >= L - 1; l--) {
                   cmp_link(c, s, l, "pose", "at the end");
                   cmp_jac(c, "jacobian", s, l, s.movable(), (l + i) % 2 ? RT::XYZW : RT::RPY, (l + i / 2) & 1, "at the end");
                 }
                 c.state(state_hash(s, i));
               }, nullptr});
  // links turned by more than a half or a full turn about each axis
  f.push_back({"turns", 4ull * NTURN * NTURN * NTURN * NTURN, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int rob = d.pick(4);
                 A3 a = turns(d);
                 A3 b{{TURN[(i / 7) % NTURN], TURN[d.pick(NTURN)], TURN[(i / 91 + 3) % NTURN]}};
                 Sys s(robot(rob));
                 int L = (int)s.rb.links.size();
                 do_add(c, s, L - 1, A3{{0.3, -0.1, 0.2}}, a, "m", i & 8, "id");
                 do_add(c, s, L, A3{{-0.6, 0.5, 0.7}}, b, "n", i & 16, "id");
                 if (s.q.size())
                   s.set(std::vector<LD>(s.q.size(), -0.7L));
                 s.set_base(BASES[i % 6]);
                 c.step(2);
                 for (int l = s.rb.n_all() - 1; l >= L; l--)
                   cmp_link(c, s, l, "pose", "at the end");
                 cmp_jac(c, "jacobian", s, L + 1, s.movable(), i % 2 ? RT::XYZW : RT::RPY, i / 2 & 1, "at the end");
                 c.state(state_hash(s, i));
               }, nullptr});
  // names of added links: any string which is not taken
  static const std::vector<std::string> NM = {"", " ", "a", "b", "a_com", "base_com", "_com", "__", "a/b", "/a", "La", "la", "La_com", "La_com_", "Lb_com", "La ", "Ja", "jb", "0", "-1", "\xC3\xA9", "<&>\"'", std::string("a\0b", 3), std::string(300, 'n'), std::string(70000, 'n'), "world", "root", "r", "\n", "%s%n"};
  f.push_back({"names", 5 * NM.size() * NM.size(), [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int rob = d.pick(5);
                 std::string n[2] = {NM[d.pick(NM.size())], NM[d.pick(NM.size())]};
                 Sys s(robot(rob));
                 if (s.q.size())
                   s.set(std::vector<LD>(s.q.size(), 0.4L));
                 for (int k = 0; k < 2; k++) {
                   auto have = s.m->get_link_names();
                   if (std::find(have.begin(), have.end(), n[k]) != have.end())
                     rejected(c, s, n[k], 0, "taken name");
                   else
                     do_add(c, s, s.rb.n_all() - 1, OX[1 + k], OR[1 + k], n[k], i & 1, "id");
                 }
                 c.step(2);
                 cmp_ids(c, s, "ids", "at the end");
                 cmp_mass(c, s, "mass", "at the end");
                 cmp_com(c, s, "com", "at the end");
                 if (s.q.size())
                   s.set(std::vector<LD>(s.q.size(), -0.7L));
                 for (int l = s.rb.n_all() - 1; l >= 0; l--)
                   cmp_link(c, s, l, "pose", "at the end");
                 c.state(state_hash(s, i));
               }, nullptr});
  f.push_back({"samples", 3 * 40, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 Sys s = load_sample(d.pick(3));
                 int k = (int)d.v;
                 s.set(sample_q(s.rb, 1));
                 size_t n0 = s.m->get_link_names().size();
                 Snap before = snap(s, n0, true);
                 int par = (k * 17) % s.rb.n_all();
                 do_add(c, s, par, OX[k % 4], OR[k / 2 % 4], "added", k & 1, "id");
                 do_add(c, s, s.rb.n_all() - 1, OX[1], OR[1], "added_on_added", k & 1, "id");
                 c.step(2);
                 same(c, before, snap(s, n0, true), "sample robot");
                 rejected(c, s, s.rb.link_name(par), 3, "sample robot");
                 s.set(sample_q(s.rb, 2));
                 for (int l = s.rb.n_all() - 1; l > s.rb.n_all() - 4; l--) {
                   cmp_link(c, s, l, "pose", "sample robot");
                   cmp_jac(c, "jacobian", s, l, s.movable(), RT::XYZW, true, "sample robot");
                 }
                 c.state(state_hash(s, i));
               }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
