// C05: total inertia matrix.
#include "hist.hpp"
using namespace bind;
static const double TEN[5][6] = {{0.3, 0, 0, 0.4, 0, 0.5}, {1, 0.2, 0, 1, 0, 1}, {1, 0, 0.3, 2, 0, 3}, {2, 0, 0, 1, -0.4, 1.5}, {0.9, 0.11, -0.12, 0.8, 0.13, 0.7}};
static const A3 CR[5] = {{{0, 0, 0}}, {{0.7, 0, 0}}, {{0, -1.1, 0}}, {{1.5707963267948966, 0, 1.5707963267948966}}, {{0.3, 1.2, -2.5}}};
static void set_in(Link &l, int ten, int rp, int kind, int salt) {
  l.inertial = kind != 3;
  l.mass = kind == 1 ? 0 : 1.5 + salt;
  l.has_iorigin = kind != 2;
  l.com = A3{{0.1, -0.2 * salt, 0.3}};
  l.crpy = CR[rp];
  for (int i = 0; i < 6; i++)
    l.I[i] = TEN[ten][i];
}
static void check(mc::Ctx &c, Sys &s, const std::string &w) {
  c.step();
  if (!cmp_inertia(c, s, "inertia", w))
    return;
  Eigen::Matrix3d I = s.m->get_total_inertia_matrix();
  double n = I.norm();
  c.check("asymmetric", (I - I.transpose()).norm() <= 1e-9 * (1 + n), w + " not symmetric");
  uint64_t h = state_hash(s, 3);
  for (auto &l : s.rb.links)
    for (double x : l.I)
      h = mc::mixd(h, x + l.crpy[1] + l.mass);
  c.state(h);
  // covariance: moving the base
  Base b0 = s.base, b1 = b0;
  b1.xyz = A3{{b0.xyz[0] + 100, b0.xyz[1] - 20, 3}};
  s.set_base(b1);
  c.step();
  Eigen::Matrix3d I1 = s.m->get_total_inertia_matrix();
  c.check("translation", (I - I1).norm() <= 1e-7 * (1 + n), w + " changes when the base is translated");
  Base b2 = b0;
  b2.rpy = A3{{0.4, 0.9, -2}};
  s.set_base(b2);
  c.step();
  Eigen::Matrix3d I2 = s.m->get_total_inertia_matrix();
  M3<LD> R = base_iso(b2).R * tr(base_iso(b0).R), W, M;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      W.m[i][j] = I(i, j);
  M = R * W * tr(R);
  double e = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      e += std::fabs((double)M.m[i][j] - I2(i, j));
  c.check("rotation", e <= 1e-8 * (1 + n), w + " does not transform as R I R^T with the base");
  cmp_inertia(c, s, "inertia", w + " (rotated base)");
  s.set_base(b0);
}
static void run(mc::Ctx &c, const Robot &r, uint64_t i) {
  Sys s(r);
  std::string w = c.replay ? describe(r) : "";
  check(c, s, w + " after loading");
  for (int k = 0; k < 2; k++) {
    std::vector<LD> q(r.joints.size());
    for (size_t j = 0; j < q.size(); j++)
      q[j] = ANG[(i + j * 2 + k + 1) % 6];
    s.set(q);
    if (k)
      s.set_base(BASES[i % 6]);
    check(c, s, w + " configured");
  }
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  auto full = kinds_full();
  auto mid = kinds_mid();
  auto small = kinds_small();
  uint64_t nf = full.size(), nm = mid.size(), ns = small.size();
  // one body: every tensor x frame x kind, on root or child
  auto mk2 = [=](uint64_t i) {
    mc::Digits d(i);
    Robot r = make(tree(2, 0), {full[d.pick(nf)]}, d.pick(2));
    int t = d.pick(5), rp = d.pick(5), k = d.pick(3);
    bool both = d.pick(2);
    set_in(r.links[1], t, rp, k == 1 ? 0 : k, 1);
    set_in(r.links[0], (t + 1) % 5, (rp + 2) % 5, both ? k : 3, 2);
    return r;
  };
  f.push_back({"two-links", nf * 2 * 5 * 5 * 3 * 2, [=](uint64_t i, mc::Ctx &c) { run(c, mk2(i), i); }, [=](uint64_t i) { return mk2(i).urdf(); }});
  auto mk3 = [=](uint64_t i) {
    mc::Digits d(i);
    int a[3], b[3], k[3];
    for (int l = 0; l < 3; l++)
      a[l] = d.pick(5), b[l] = thorough ? d.pick(5) : (a[l] * 2 + i / 125 + l) % 5;
    for (int l = 0; l < 3; l++)
      k[l] = d.pick(4);
    int t = d.pick(2);
    Robot r = make(tree(3, t), {mid[d.pick(nm)], mid[(i / 3) % nm]}, i % 6);
    for (int l = 0; l < 3; l++)
      set_in(r.links[l], a[l], b[l], k[l], l);
    if (r.mass() <= 0)
      set_in(r.links[i % 3], 4, 4, 0, 1);
    return r;
  };
  f.push_back({"three-links", 125ull * 64 * 2 * nm * (thorough ? 125 / 25 : 1), [=](uint64_t i, mc::Ctx &c) { run(c, mk3(i), i); }, [=](uint64_t i) { return mk3(i).urdf(); }});
  f.push_back({"tree4", ns * ns * ns * 6 * 24, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 std::vector<Kind> ks;
                 for (int k = 0; k < 3; k++)
                   ks.push_back(small[d.pick(ns)]);
                 int t = d.pick(6);
                 run(c, make(tree(4, t), ks, d.pick(24), true), i);
               }, nullptr});
  // inertias and masses of very different size, side by side; very small and very large displacements
  auto mkm = [=](uint64_t i) {
    mc::Digits d(i);
    static const double SC[5] = {1e-9, 1e-4, 1, 2e3, 1e6};
    Robot r = make(tree(3, d.pick(2)), {Kind{REV, 1, 2}, Kind{REV, 1, 2}}, i % 6);
    for (int l = 0; l < 3; l++) {
      double m = SC[d.pick(5)];
      set_in(r.links[l], (int)(i + l) % 5, (int)(i / 5 + 2 * l) % 5, 0, l);
      r.links[l].mass *= m;
      double t = (i / 3 + l) % 3 == 0 ? m : (i / 3 + l) % 3 == 1 ? m * 1e-5 : 0;
      for (double &x : r.links[l].I)
        x *= t;
    }
    for (int k = 0; k < 2; k++)
      apply_scale(r.joints[k], d.pick(3), d.pick(6), k ? 5 : 4);
    return r;
  };
  f.push_back({"scales", 2ull * 125 * 18 * 18 / (thorough ? 1 : 5), [=](uint64_t i, mc::Ctx &c) {
                 uint64_t n = thorough ? i : i * 5 + i % 5;
                 Robot r = mkm(n);
                 Sys s(r);
                 std::string w = c.replay ? describe(r) : "";
                 for (int k = 0; k < 2; k++) {
                   s.set({SVAL[(n + 3 * k) % 10], SVAL[(n / 7 + 5 * k) % 10]});
                   s.set_base(BASES[(n + k) % 6]);
                   c.step();
                   cmp_inertia(c, s, "inertia", w);
                 }
               }, nullptr});
  // every pattern of zero and non-zero entries of a tensor, coordinates of its frame, and rotations of the base
  f.push_back({"sparse", 64ull * 64 * 8 * 8, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int m = d.pick(64), o = d.pick(64), b = d.pick(8), q = d.pick(4), two = d.pick(2), t = (int)(i * 7 / 64 % 9);
                 Robot r = make(tree(3, 0), {Kind{t % 3, 2, 4}, Kind{t / 3, 2, 1}}, i % 6);
                 int k = (int)(i / 5 % 3);
                 Link &l = r.links[k];
                 set_in(l, 4, 4, 0, 1);
                 l.com = masked(m, 0.2, -0.3, 0.45);
                 l.crpy = masked(m >> 3, 0.6, 0.3, -1.1);
                 for (int e = 0; e < 6; e++)
                   if (!(o >> e & 1))
                     l.I[e] = 0;
                 if (two) {
                   set_in(r.links[(k + 1) % 3], (int)(i % 5), (int)(i % 5), 0, 2);
                   r.links[(k + 1) % 3].mass = i % 3 ? 1e-6 : 2;
                 }
                 Sys s(r);
                 s.set({q & 1 ? 0.7 : 0, q & 2 ? -1.3 : 0});
                 s.set_base(masked_base(b << 3 | (int)(i & 7)));
                 c.step();
                 cmp_inertia(c, s, "inertia", c.replay ? describe(r, &s.q, &s.base) : "");
                 c.state(mc::mix(state_hash(s, 3), i));
               }, nullptr});
  // inertial frames and bases turned by more than a half or a full turn about each axis
  f.push_back({"turns", 3ull * NTURN * NTURN * NTURN * NTURN, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int k = d.pick(3);
                 A3 a = turns(d);
                 A3 b{{TURN[d.pick(NTURN)], TURN[(i / 7) % NTURN], TURN[(i / 91 + 3) % NTURN]}};
                 Robot r = make(tree(3, 0), {Kind{REV, 2, 4}, Kind{(int)(i % 3), 2, 1}}, i % 6, true);
                 Link &l = r.links[k];
                 set_in(l, 4, 4, 0, 1);
                 l.crpy = a;
                 Sys s(r);
                 s.set({0.7, -1.3});
                 Base g;
                 g.xyz = A3{{0.2, -1, 3}};
                 std::rotate(b.begin(), b.begin() + i % 3, b.end());
                 g.rpy = b;
                 s.set_base(g);
                 const std::string w = c.replay ? describe(r, &s.q, &s.base) : "";
                 c.step();
                 cmp_inertia(c, s, "inertia", w);
                 c.state(state_hash(s, i));
               }, nullptr});
  f.push_back({"large", NSPECIAL * 9, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int w = d.pick(NSPECIAL), k = d.pick(3);
                 run(c, special(w, k, d.pick(3), true), i);
               }, nullptr});
  f.push_back({"samples", 18, [=](uint64_t i, mc::Ctx &c) {
                 Sys s = load_sample(i % 3);
                 for (int k = 0; k < 3; k++) {
                   s.set(sample_q(s.rb, k));
                   s.set_base(BASES[i / 3]);
                   check(c, s, "sample");
                 }
               }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
