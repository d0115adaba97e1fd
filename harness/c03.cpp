// C03: Jacobians are the derivative of the reported pose.
#include "special.hpp"
using namespace bind;
static const RT RTS[3] = {RT::IGNORE, RT::RPY, RT::XYZW};
static const double PI = 3.14159265358979323846;

// joint request lists over k movable joints: all permutations of all of them (k<=3), every single one,
// reversed order, one with a repeated joint, the empty list
static std::vector<std::vector<int>> requests(const std::vector<int> &mv, int rich) {
  std::vector<std::vector<int>> v;
  int k = (int)mv.size();
  if (rich && k <= 3) {
    for (uint64_t p = 0; p < nfact(k); p++) {
      std::vector<int> r;
      for (int x : perm(k, p))
        r.push_back(mv[x]);
      v.push_back(r);
    }
    for (int x : mv)
      v.push_back({x});
    if (k >= 1)
      v.push_back({mv[k - 1], mv[0], mv[k - 1]});
    v.push_back({});
  } else {
    v.push_back(mv);
    std::vector<int> r(mv.rbegin(), mv.rend());
    if (k > 1) {
      v.push_back(r);
      std::vector<int> h;
      for (int i = 0; i < k; i += 2)
        h.push_back(mv[i]);
      v.push_back(h);
    }
  }
  return v;
}
static void hash(mc::Ctx &c, const Sys &s, uint64_t h) {
  for (auto v : s.q)
    h = mc::mixd(h, (double)v);
  for (int k = 0; k < 3; k++)
    h = mc::mixd(mc::mixd(h, s.base.xyz[k]), s.base.rpy[k]);
  c.state(h);
}
static void all_jac(mc::Ctx &c, Sys &s, int rich, int vary, uint64_t id) {
  auto reqs = requests(s.movable(), rich);
  hash(c, s, id);
  for (int l = 0; l < s.rb.n_all(); l++)
    for (size_t r = 0; r < reqs.size(); r++)
      for (int rt = 0; rt < 3; rt++)
        for (int wb = 0; wb < 2; wb++) {
          if (rich < 2 && ((l + r + rt + wb + vary) & 1))
            continue;
          c.step();
          cmp_jac(c, "jacobian", s, l, reqs[r], RTS[rt], wb, "link " + s.rb.link_name(l) + " rot_type " + std::to_string(rt) + (wb ? " with base" : "") + " of " + (c.replay ? describe(s.rb, &s.q, &s.base) : s.rb.name));
        }
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  auto full = kinds_full();
  auto mid = kinds_mid();
  auto small = kinds_small();
  uint64_t nf = full.size(), nm = mid.size(), ns = small.size();
  // the very first thing asked of a fresh model (joint angles zero), robots with and without inertial data
  f.push_back({"first", 2 * nf * nm * 2 * 3 * 2, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 uint64_t t = d.pick(2);
                 Kind a = full[d.pick(nf)], b = mid[d.pick(nm)];
                 bool mass = d.pick(2);
                 int rt = d.pick(3);
                 bool wb = d.pick(2);
                 Robot r = make(tree(3, t), {a, b}, i % 6, mass);
                 Sys s(r);
                 for (int l = 2; l >= 0; l--) {
                   c.step();
                   cmp_jac(c, "jacobian-first", s, l, s.movable(), RTS[rt], wb, "first query, link " + r.link_name(l) + " of " + (c.replay ? describe(r) : r.name));
                 }
                 hash(c, s, i);
               }, nullptr});
  // two joints, all kinds
  f.push_back({"tree3", nf * nf * 2, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 Kind a = full[d.pick(nf)], b = full[d.pick(nf)];
                 Robot r = make(tree(3, d.pick(2)), {a, b}, i % 6);
                 Sys s(r);
                 for (int k = 0; k < 2; k++) {
                   std::vector<LD> q{k ? 0.7 : -1.3, k ? -7.0 : 2.9};
                   s.set(q);
                   s.set_base(BASES[(i + 3 * k) % 6]);
                   all_jac(c, s, 1, (int)i + k, i);
                 }
               },
               [=](uint64_t i) { mc::Digits d(i); Kind a = full[d.pick(nf)], b = full[d.pick(nf)]; return make(tree(3, d.pick(2)), {a, b}, i % 6).urdf(); }});
  // three joints, all tree shapes, all request orders
  f.push_back({"tree4", mc::ipow(thorough ? nm : ns, 3) * 6 * 24, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 std::vector<Kind> ks;
                 for (int k = 0; k < 3; k++)
                   ks.push_back(thorough ? mid[d.pick(nm)] : small[d.pick(ns)]);
                 uint64_t t = d.pick(6);
                 Robot r = make(tree(4, t), ks, d.pick(24), i & 1);
                 Sys s(r);
                 s.set({0.7, -1.3, 2.9});
                 s.set_base(BASES[i % 6]);
                 all_jac(c, s, thorough ? 2 : 1, (int)i, i);
               }, nullptr});
  // every list of up to four requested joints, repeats included
  f.push_back({"lists", 6 * 120 * (thorough ? ns * ns * ns : 6), [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int t = d.pick(6);
                 std::vector<int> ask;
                 uint64_t n = d.pick(120);
                 int len = n < 3 ? 1 : n < 12 ? 2 : n < 39 ? 3 : 4;
                 n -= len == 1 ? 0 : len == 2 ? 3 : len == 3 ? 12 : 39;
                 for (int k = 0; k < len; k++, n /= 3)
                   ask.push_back((int)(n % 3));
                 std::vector<Kind> ks;
                 for (int k = 0; k < 3; k++)
                   ks.push_back(thorough ? small[d.pick(ns)] : small[(d.v * 5 + k * (1 + d.v % 3)) % ns]);
                 for (int x : ask)
                   if (ks[x].type == FIX)
                     ks[x] = Kind{REV, 1, 2};
                 Robot r = make(tree(4, t), ks, i % 24, i & 1);
                 Sys s(r);
                 s.set({0.7, -1.3, 2.9});
                 s.set_base(BASES[i % 6]);
                 hash(c, s, i);
                 for (int l = 0; l < s.rb.n_all(); l++)
                   for (int rt = 0; rt < 3; rt++) {
                     c.step();
                     cmp_jac(c, "jacobian", s, l, ask, RTS[rt], (l + rt + i) & 1, "link " + s.rb.link_name(l) + " list of " + std::to_string(len) + (c.replay ? describe(r, &s.q, &s.base) : ""));
                   }
               }, nullptr});
  f.push_back({"tree5", mc::ipow(ns, 4) * 24, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 std::vector<Kind> ks;
                 for (int k = 0; k < 4; k++)
                   ks.push_back(small[d.pick(ns)]);
                 Robot r = make(tree(5, d.pick(24)), ks, (i * 7) % 120, i & 1);
                 Sys s(r);
                 s.set({0.7, -1.3, 2.9, 0.4});
                 s.set_base(BASES[(i / 3) % 6]);
                 all_jac(c, s, 0, (int)i, i);
               }, nullptr});
  // orientations: base roll/yaw in eighth turns over two turns, pitch inside, end effector on a grid
  int NA = thorough ? 33 : 17;
  f.push_back({"orient", (uint64_t)NA * NA * 5 * 3, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 auto ang = [&](int k) { return (k - (NA - 1) / 2) * (4 * PI / (NA - 1)); };
                 double P[5] = {0, PI / 4, -PI / 3, 1.3, -1.45};
                 Base b;
                 b.xyz = A3{{0.5, -0.25, 1}};
                 b.rpy[0] = ang(d.pick(NA));
                 b.rpy[2] = ang(d.pick(NA));
                 b.rpy[1] = P[d.pick(5)];
                 int rob = d.pick(3);
                 Robot r;
                 if (rob == 0)
                   r = make(tree(4, 0), {Kind{REV, 0, 2}, Kind{CONT, 1, 0}, Kind{REV, 1, 1}}, 0);
                 else if (rob == 1)
                   r = make({-1, 0, 1, 2}, {Kind{CONT, 1, 0}, Kind{PRIS, 3, 1}, Kind{REV, 0, 2}}, 5, true);
                 else
                   r = make({-1, 0, 1, 1}, {Kind{REV, 2, 4}, Kind{CONT, 0, 2}, Kind{FIX, 2, 0}}, 9);
                 Sys s(r);
                 s.set_base(b);
                 double E[5] = {0, PI, -PI, PI / 2, 0.3};
                 for (int a = 0; a < 25; a++) {
                   if (!thorough && (a + i) % 3)
                     continue;
                   s.set({E[a % 5], E[a / 5], 0.2});
                   hash(c, s, rob + 77);
                   for (int l = 1; l < 4; l++)
                     for (int rt = 1; rt < 3; rt++) {
                       c.step();
                       cmp_jac(c, "jacobian-orientation", s, l, s.movable(), RTS[rt], true, "link " + r.link_name(l) + " rot_type " + std::to_string(rt) + " " + (c.replay ? describe(r, &s.q, &s.base) : ""));
                     }
                 }
               }, nullptr});
  // very small and very large angles, displacements and origins
  f.push_back({"scales", 2ull * 18 * 18 * 3 * 100, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 Robot r = make(tree(3, d.pick(2)), {Kind{REV, 1, 2}, Kind{REV, 1, 2}}, i % 6);
                 for (int k = 0; k < 2; k++) {
                   int t = d.pick(3), o = d.pick(6);
                   apply_scale(r.joints[k], t, o, k == 0 ? 4 : (int)d.pick(3));
                 }
                 int a = d.pick(10), b = d.pick(10);
                 if (!thorough && (a * 7 + b + i) % 8)
                   return;
                 Sys s(r);
                 s.set({SVAL[a], SVAL[b]});
                 s.set_base(BASES[(a + b) % 6]);
                 hash(c, s, i);
                 for (int l = 1; l < 3; l++)
                   for (int rt = 0; rt < 3; rt++) {
                     c.step();
                     cmp_jac(c, "jacobian", s, l, s.movable(), RTS[rt], (l + rt + i) & 1, "link " + r.link_name(l) + " " + (c.replay ? describe(r, &s.q, &s.base) : ""));
                   }
               }, nullptr});
  // every lattice direction as the axis of either joint
  f.push_back({"axes", 18ull * NDIR * NDIR, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int t = d.pick(9);
                 Robot r = make(tree(3, d.pick(2)), {Kind{t % 3, 2, 2}, Kind{t / 3, 1, 2}}, i % 6, i & 1);
                 for (int k = 0; k < 2; k++)
                   r.joints[k].axis = direction((int)d.pick(NDIR));
                 Sys s(r);
                 s.set({0.7, -1.3});
                 s.set_base(BASES[i % 6]);
                 hash(c, s, i);
                 for (int l = 1; l < 3; l++)
                   for (int rt = 0; rt < 3; rt++) {
                     c.step();
                     cmp_jac(c, "jacobian", s, l, s.movable(), RTS[rt], (l + rt + i) & 1, "link " + r.link_name(l) + " " + (c.replay ? describe(r, &s.q, &s.base) : ""));
                   }
               }, nullptr});
  // every pattern of zero and non-zero coordinates of an origin, the base and the joint angles
  f.push_back({"sparse", 64ull * 64 * 4 * 3, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int b = d.pick(64), o = d.pick(64), q = d.pick(4), t = d.pick(3);
                 Robot r = make(tree(3, 0), {Kind{t, 2, 4}, Kind{(int)(i % 3), 2, 1}}, i % 6, i & 1);
                 masked_origin(r.joints[i / 3 & 1], o);
                 Sys s(r);
                 s.set({q & 1 ? 0.7 : 0, q & 2 ? -1.3 : 0});
                 s.set_base(masked_base(b));
                 hash(c, s, i);
                 for (int l = 1; l < 3; l++)
                   for (int rt = 0; rt < 3; rt++) {
                     c.step();
                     cmp_jac(c, "jacobian", s, l, s.movable(), RTS[rt], (l + rt + i) % 3, "link " + r.link_name(l) + " " + (c.replay ? describe(r, &s.q, &s.base) : ""));
                   }
               }, nullptr});
  f.push_back({"large", NSPECIAL * 3 * 3 * 2, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int w = d.pick(NSPECIAL), k = d.pick(3);
                 int nm2 = d.pick(3);
                 Robot r = special(w, k, nm2, d.pick(2));
                 Sys s(r);
                 s.set(sample_q(r, 1));
                 s.set_base(BASES[i % 6]);
                 hash(c, s, i + 5000);
                 auto mv = s.movable();
                 std::vector<int> rv(mv.rbegin(), mv.rend());
                 for (int l = (int)(i % 7); l < r.n_all(); l += thorough ? 1 : 7)
                   for (int rt = 0; rt < 3; rt++) {
                     c.step();
                     cmp_jac(c, "jacobian", s, l, rt == 1 ? rv : mv, RTS[rt], (l + rt) & 1, "large robot link " + r.link_name(l));
                   }
               }, nullptr});
  f.push_back({"samples", 3 * 12, [=](uint64_t i, mc::Ctx &c) {
                 Sys s = load_sample(i % 3);
                 int k = (int)(i / 3);
                 s.set(sample_q(s.rb, k % 2 + 1));
                 s.set_base(BASES[k % 6]);
                 hash(c, s, i + 9000);
                 auto mv = s.movable();
                 for (int l = 0; l < s.rb.n_all(); l += 4)
                   for (int rt = 0; rt < 3; rt++) {
                     c.step();
                     cmp_jac(c, "jacobian", s, (l + k) % s.rb.n_all(), mv, RTS[rt], (l / 4 + rt) & 1, "sample robot link " + s.rb.link_name((l + k) % s.rb.n_all()));
                   }
               }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
