// C02: link poses are the product of the transforms along the chain.
#include "special.hpp"
using namespace bind;

static void all_poses(mc::Ctx &c, Sys &s, int order, uint64_t h) {
  int n = s.rb.n_all();
  Iso<LD> b = base_iso(s.base);
  for (int k = 0; k < n; k++) {
    int l = order == 0 ? k : order == 1 ? n - 1 - k : (k * 7 + 3) % n;
    tinyfk::Transform t;
    s.m->get_link_pose(s.lid[l], t);
    c.step();
    cmp_pose(c, "pose", t, s.rb.pose<LD>(l, s.q, b), "link " + s.rb.link_name(l) + " of " + (c.replay ? describe(s.rb, &s.q, &s.base) : s.rb.name));
  }
  for (auto v : s.q)
    h = mc::mixd(h, (double)v);
  for (int k = 0; k < 3; k++)
    h = mc::mixd(mc::mixd(h, s.base.xyz[k]), s.base.rpy[k]);
  c.state(h);
}

static void run_robot(mc::Ctx &c, const Robot &r, const std::vector<double> &angs, int nbase, uint64_t id, int maxdof = 3) {
  Sys s(r);
  auto mv = s.movable();
  int k = std::min<int>((int)mv.size(), maxdof);
  uint64_t ncfg = mc::ipow(angs.size(), k);
  for (uint64_t a = 0; a < ncfg; a++) {
    mc::Digits d(a);
    std::vector<LD> q(r.joints.size(), 0);
    for (size_t i = 0; i < mv.size(); i++)
      q[mv[i]] = (int)i < k ? angs[d.pick(angs.size())] : angs[(a + i) % angs.size()];
    s.set(q);
    for (int b = 0; b < nbase; b++) {
      s.set_base(BASES[(b + id) % 6]);
      all_poses(c, s, (int)(a + b) % 3, mc::mix(0, id));
    }
  }
}

std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  auto full = kinds_full();
  auto mid = kinds_mid();
  auto small = kinds_small();
  uint64_t nf = full.size(), nm = mid.size(), ns = small.size();
  std::vector<double> A6(ANG, ANG + 6), A3v{0, 0.7, -7.0}, A2{0.7, -1.3};
  f.push_back({"chain1", nf * 2, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 Kind k = full[d.pick(nf)];
                 run_robot(c, make(tree(2, 0), {k}, d.pick(2)), A6, 6, i);
               },
               [=](uint64_t i) { mc::Digits d(i); Kind k = full[d.pick(nf)]; return make(tree(2, 0), {k}, d.pick(2)).urdf(); }});
  f.push_back({"tree3", nf * nf * 2, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 Kind a = full[d.pick(nf)], b = full[d.pick(nf)];
                 run_robot(c, make(tree(3, d.pick(2)), {a, b}, i % 6), A3v, 2, i);
               },
               [=](uint64_t i) { mc::Digits d(i); Kind a = full[d.pick(nf)], b = full[d.pick(nf)]; return make(tree(3, d.pick(2)), {a, b}, i % 6).urdf(); }});
  auto mk4 = [=](uint64_t i) {
    mc::Digits d(i);
    std::vector<Kind> ks;
    for (int k = 0; k < 3; k++)
      ks.push_back(mid[d.pick(nm)]);
    uint64_t t = d.pick(6);
    return make(tree(4, t), ks, d.pick(24));
  };
  f.push_back({"tree4", nm * nm * nm * 6 * 24, [=](uint64_t i, mc::Ctx &c) { run_robot(c, mk4(i), A2, 2, i); },
               [=](uint64_t i) { return mk4(i).urdf(); }});
  auto mk5 = [=](uint64_t i) {
    mc::Digits d(i);
    std::vector<Kind> ks;
    for (int k = 0; k < 4; k++)
      ks.push_back(thorough ? mid[d.pick(nm)] : small[d.pick(ns)]);
    uint64_t t = d.pick(24);
    return make(tree(5, t), ks, i % 120);
  };
  f.push_back({"tree5", mc::ipow(thorough ? nm : ns, 4) * 24, [=](uint64_t i, mc::Ctx &c) { run_robot(c, mk5(i), A2, 1, i, 2); },
               [=](uint64_t i) { return mk5(i).urdf(); }});
  if (thorough) {
    auto mk6 = [=](uint64_t i) {
      mc::Digits d(i);
      std::vector<Kind> ks;
      for (int k = 0; k < 5; k++)
        ks.push_back(small[d.pick(ns)]);
      uint64_t t = d.pick(120);
      return make(tree(6, t), ks, i % 720);
    };
    f.push_back({"tree6", mc::ipow(ns, 5) * 120, [=](uint64_t i, mc::Ctx &c) { run_robot(c, mk6(i), A2, 1, i, 2); },
                 [=](uint64_t i) { return mk6(i).urdf(); }});
  }
  // very small and very large angles, displacements and origins
  auto mks = [=](uint64_t i, uint64_t &rest) {
    mc::Digits d(i);
    Robot r = make(tree(3, d.pick(2)), {Kind{REV, 1, 2}, Kind{REV, 1, 2}}, i % 6);
    for (int k = 0; k < 2; k++) {
      int t = d.pick(3), o = d.pick(6);
      apply_scale(r.joints[k], t, o, k == 0 ? 4 : (int)d.pick(3));
    }
    rest = d.v;
    return r;
  };
  f.push_back({"scales", 2ull * 18 * 18 * 3, [=](uint64_t i, mc::Ctx &c) {
                 uint64_t x;
                 std::vector<double> v(SVAL, SVAL + 10);
                 run_robot(c, mks(i, x), v, 1, i);
               },
               [=](uint64_t i) { uint64_t x; return mks(i, x).urdf(); }});
  // angles far outside the principal range, at and next to multiples of a quarter turn
  std::vector<double> AL{-0.0, 1e-300, 1e3, -1e3, 12345.678, -1e6, 1e6 + 0.3, 1e-12};
  for (int k = -10; k <= 10; k++) {
    double a = k * 1.57079632679489662;
    AL.push_back(a);
    AL.push_back(std::nextafter(a, 100.0));
    AL.push_back(a - 1e-8);
    AL.push_back(a + 1e-4);
  }
  uint64_t na = AL.size();
  f.push_back({"angles", na * na * 4, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 double a = AL[d.pick(na)], b = AL[d.pick(na)];
                 int w = d.pick(4);
                 Sys s(make(tree(3, w & 1), {Kind{w & 2 ? REV : CONT, 1, 4}, Kind{w & 2 ? CONT : REV, 2, 2}}, w));
                 s.set({a, b});
                 s.set_base(BASES[i % 6]);
                 all_poses(c, s, (int)(i % 3), mc::mix(i, 5));
                 Base g;
                 g.xyz = A3{{0.2, a, b}};
                 g.rpy = A3{{a, b, 0.4}};
                 if (w & 1)
                   std::swap(g.rpy[0], g.rpy[2]);
                 s.set_base(g);
                 all_poses(c, s, (int)(i % 3), mc::mix(i, 6));
               }, nullptr});
  // every lattice direction as the axis of either joint
  auto mka = [](uint64_t i, uint64_t &rest) {
    mc::Digits d(i);
    int t = d.pick(9);
    Robot r = make(tree(3, d.pick(2)), {Kind{t % 3, 2, 2}, Kind{t / 3, 1, 2}}, i % 6);
    for (int k = 0; k < 2; k++)
      r.joints[k].axis = direction((int)d.pick(NDIR));
    rest = d.v;
    return r;
  };
  f.push_back({"axes", 18ull * NDIR * NDIR, [=](uint64_t i, mc::Ctx &c) {
                 uint64_t x;
                 run_robot(c, mka(i, x), A2, 1, i);
               },
               [=](uint64_t i) { uint64_t x; return mka(i, x).urdf(); }});
  // every pattern of zero and non-zero coordinates of an origin, the base and the joint angles
  f.push_back({"sparse", 64ull * 64 * 4 * 4, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int b = d.pick(64), o = d.pick(64), q = d.pick(4), t = d.pick(4);
                 Robot r = make(tree(3, 0), {Kind{t, 2, 4}, Kind{(int)(i % 3), 2, 1}}, i % 6);
                 masked_origin(r.joints[i & 1], o);
                 Sys s(r);
                 s.set({q & 1 ? 0.7 : 0, q & 2 ? -1.3 : 0});
                 s.set_base(masked_base(b));
                 all_poses(c, s, (int)(i % 3), i);
               }, nullptr});
  // origins and bases turned by more than a half or a full turn about each axis
  f.push_back({"turns", 4ull * NTURN * NTURN * NTURN * NTURN, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int t = d.pick(4);
                 A3 a = turns(d);
                 A3 b{{TURN[d.pick(NTURN)], TURN[(i / 7) % NTURN], TURN[(i / 91 + 3) % NTURN]}};
                 Robot r = make(tree(3, 0), {Kind{t, 2, 4}, Kind{(int)(i % 3), 2, 1}}, i % 6);
                 r.joints[i / 4 & 1].rpy = a;
                 Sys s(r);
                 s.set({0.7, -1.3});
                 Base g;
                 g.xyz = A3{{0.2, -1, 3}};
                 std::rotate(b.begin(), b.begin() + i % 3, b.end());
                 g.rpy = b;
                 s.set_base(g);
                 all_poses(c, s, (int)(i % 3), i);
               }, nullptr});
  f.push_back({"large", NSPECIAL * 3 * 3, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int w = d.pick(NSPECIAL), k = d.pick(3);
                 run_robot(c, special(w, k, d.pick(3), false), A2, 2, i, 2);
               },
               nullptr});
  f.push_back({"samples", 3 * 3, [=](uint64_t i, mc::Ctx &c) {
                 Sys s = load_sample(i % 3);
                 for (int k = 0; k < 4; k++) {
                   s.set(sample_q(s.rb, (int)(i / 3) + k));
                   for (int b = 0; b < 6; b++) {
                     s.set_base(BASES[b]);
                     all_poses(c, s, b % 3, i + 1000);
                   }
                 }
               },
               nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
