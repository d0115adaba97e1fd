// C04: centre of mass, its Jacobian, total mass.
#include "hist.hpp"
using namespace bind;
// inertial alphabets: none, no origin element, xyz only, xyz+rpy, zero mass, heavy
static void set_inertial(Link &l, int k, int salt) {
  l.inertial = k != 0;
  l.has_iorigin = k != 1;
  l.mass = k == 4 ? 0.0 : k == 5 ? 1e3 : 0.5 + 0.25 * salt + k;
  if (k >= 2)
    l.com = A3{{0.1 + 0.05 * salt, -0.2, 0.3 * salt}};
  if (k >= 3)
    l.crpy = A3{{0.5, -0.25 * salt, 1.1}};
  double I[6] = {0.3, 0.01, -0.02, 0.4, 0.03, 0.5};
  for (int i = 0; i < 6; i++)
    l.I[i] = I[i] * (1 + salt);
}
static void everything(mc::Ctx &c, Sys &s, int ord, const std::string &w) {
  auto mv = s.movable();
  std::vector<int> rv(mv.rbegin(), mv.rend()), one;
  if (!mv.empty())
    one.push_back(mv[mv.size() / 2]);
  for (int k = 0; k < 2; k++) {
    c.step(4);
    if ((ord + k) & 1) {
      cmp_com(c, s, "com", w);
      cmp_comjac(c, s, mv, true, "com-jacobian", w);
    } else {
      cmp_comjac(c, s, rv, false, "com-jacobian", w);
      cmp_comjac(c, s, one, true, "com-jacobian", w);
      cmp_com(c, s, "com", w);
    }
    cmp_mass(c, s, "mass", w);
  }
  c.state(state_hash(s, s.rb.mass() * 1000 + s.rb.links.size()));
}
static void run(mc::Ctx &c, const Robot &r, uint64_t i) {
  Sys s(r);
  const std::string w = c.replay ? describe(r) : "";
  everything(c, s, (int)i, w + "after loading");
  for (int k = 0; k < 2; k++) {
    std::vector<LD> q(r.joints.size());
    for (size_t j = 0; j < q.size(); j++)
      q[j] = ANG[(i + j * 2 + k + 1) % 6];
    s.set(q);
    s.set_base(BASES[(i + k) % 6]);
    everything(c, s, (int)(i / 2 + k), w + "configured");
  }
  // links without inertial data do not count
  do_add(c, s, (int)r.links.size() - 1, A3{{3, 1, 2}}, A3{{0.1, 0, 0}}, "tool", i & 1, "add");
  everything(c, s, (int)i, w + "after adding a link");
  do_add(c, s, 0, A3{{-5, 1, 2}}, A3{{0.1, 0, 2}}, "tool2", true, "add");
  std::vector<LD> q(r.joints.size(), 0.5L);
  s.set(q);
  everything(c, s, (int)i + 1, w + "after adding two links");
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  auto full = kinds_full();
  auto mid = kinds_mid();
  auto small = kinds_small();
  uint64_t nf = full.size(), nm = mid.size(), ns = small.size();
  auto mk3 = [=](uint64_t i) {
    mc::Digits d(i);
    std::vector<Kind> ks{full[d.pick(nf)], mid[d.pick(nm)]};
    int t = d.pick(2);
    Robot r = make(tree(3, t), ks, i % 6);
    for (int l = 0; l < 3; l++)
      set_inertial(r.links[l], d.pick(l == 2 ? 4 : 3) + (l == 1 ? 3 : 0) * (d.v & 1), l);
    if (r.mass() <= 0)
      set_inertial(r.links[i % 3], 3, 1);
    return r;
  };
  f.push_back({"tree3", nf * nm * 2 * 3 * 3 * 4, [=](uint64_t i, mc::Ctx &c) { run(c, mk3(i), i); }, [=](uint64_t i) { return mk3(i).urdf(); }});
  auto mk4 = [=](uint64_t i) {
    mc::Digits d(i);
    std::vector<Kind> ks;
    int in[4];
    for (int k = 0; k < 4; k++)
      in[k] = d.pick(6);
    int t = d.pick(6);
    for (int k = 0; k < 3; k++)
      ks.push_back(thorough ? small[d.pick(ns)] : small[(i / 7 + i / 91 * k + k) % ns]);
    Robot r = make(tree(4, t), ks, (i * 5) % 24);
    for (int l = 0; l < 4; l++)
      set_inertial(r.links[l], in[l], l);
    if (r.mass() <= 0)
      set_inertial(r.links[i % 4], 3, 1);
    return r;
  };
  f.push_back({"tree4", 1296ull * 6 * (thorough ? 64 : 1), [=](uint64_t i, mc::Ctx &c) { run(c, mk4(i), i); }, [=](uint64_t i) { return mk4(i).urdf(); }});
  // every subset of the joints, in both directions, with and without the base
  auto mks = [=](uint64_t i) {
    mc::Digits d(i);
    int t = d.pick(6);
    std::vector<Kind> ks;
    for (int k = 0; k < 3; k++)
      ks.push_back(small[d.pick(ns)]);
    int have = d.pick(15) + 1;
    Robot r = make(tree(4, t), ks, i % 24);
    for (int l = 0; l < 4; l++)
      set_inertial(r.links[l], have >> l & 1 ? 2 + (int)((i + l) % 2) : 0, l);
    return r;
  };
  f.push_back({"subsets", 6 * ns * ns * ns * 15, [=](uint64_t i, mc::Ctx &c) {
                 Robot r = mks(i);
                 Sys s(r);
                 const std::string w = c.replay ? describe(r) : "";
                 s.set({0.7, -1.3, 2.9});
                 s.set_base(BASES[i % 6]);
                 auto mv = s.movable();
                 for (int m = 0; m < (1 << mv.size()); m++) {
                   std::vector<int> sub;
                   for (size_t k = 0; k < mv.size(); k++)
                     if (m >> k & 1)
                       sub.push_back(mv[k]);
                   c.step(2);
                   cmp_comjac(c, s, sub, (m + i) & 1, "com-jacobian", w + " subset " + std::to_string(m));
                   std::reverse(sub.begin(), sub.end());
                   cmp_comjac(c, s, sub, !((m + i) & 1), "com-jacobian", w + " reversed subset " + std::to_string(m));
                 }
                 cmp_com(c, s, "com", w);
                 c.state(state_hash(s, i));
               }, [=](uint64_t i) { return mks(i).urdf(); }});
  // every list of up to three requested joints, repeats included
  f.push_back({"lists", 6 * 39 * ns * ns * ns, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int t = d.pick(6);
                 uint64_t n = d.pick(39);
                 std::vector<Kind> ks;
                 for (int k = 0; k < 3; k++)
                   ks.push_back(small[d.pick(ns)]);
                 std::vector<int> ask;
                 int len = n < 3 ? 1 : n < 12 ? 2 : 3;
                 n -= len == 1 ? 0 : len == 2 ? 3 : 12;
                 for (int k = 0; k < len; k++, n /= 3)
                   if (ks[n % 3].type != FIX)
                     ask.push_back((int)(n % 3));
                 Robot r = make(tree(4, t), ks, i % 24, true);
                 for (int l = 0; l < 4; l++)
                   set_inertial(r.links[l], (int)(i / 5 + l) % 4, l);
                 if (r.mass() <= 0)
                   set_inertial(r.links[i % 4], 3, 1);
                 Sys s(r);
                 s.set({0.7, -1.3, 2.9});
                 s.set_base(BASES[i % 6]);
                 c.step(2);
                 const std::string w = c.replay ? describe(r) : "";
                 cmp_comjac(c, s, ask, i & 1, "com-jacobian", w);
                 cmp_comjac(c, s, ask, !(i & 1), "com-jacobian", w);
                 cmp_com(c, s, "com", w);
                 c.state(state_hash(s, i));
               }, nullptr});
  // masses from micrograms to tons, side by side
  static const double MS[8] = {0, 1e-12, 1e-6, 5e-4, 1e-2, 1, 750, 1e6};
  auto mkm = [=](uint64_t i) {
    mc::Digits d(i);
    Robot r = make({-1, 0, 1, 1}, {Kind{REV, 2, 4}, Kind{PRIS, 1, 2}, Kind{CONT, 1, 1}}, i % 24);
    for (int l = 0; l < 4; l++) {
      set_inertial(r.links[l], 3, l);
      r.links[l].mass = MS[d.pick(8)];
    }
    return r;
  };
  f.push_back({"masses", 8 * 8 * 8 * 8 - 8, [=](uint64_t i, mc::Ctx &c) {
                 Robot r = mkm(i);
                 if (r.mass() > 0)
                   run(c, r, i);
               }, [=](uint64_t i) { return mkm(i).urdf(); }});
  // long levers, tiny offsets
  auto mkl = [=](uint64_t i) {
    mc::Digits d(i);
    Robot r = make(tree(3, d.pick(2)), {Kind{REV, 1, 2}, Kind{REV, 1, 2}}, i % 6, true);
    for (int k = 0; k < 2; k++) {
      int t = d.pick(3), o = d.pick(6);
      apply_scale(r.joints[k], t, o, k ? 5 : 4);
    }
    return r;
  };
  f.push_back({"scales", 2 * 18 * 18 * 4, [=](uint64_t i, mc::Ctx &c) {
                 Robot r = mkl(i % (2 * 18 * 18));
                 Sys s(r);
                 const std::string w = c.replay ? describe(r) : "";
                 for (int k = 0; k < 5; k++) {
                   s.set({SVAL[(i + k) % 10], SVAL[(i / 648 * 3 + 2 * k + i) % 10]});
                   everything(c, s, (int)i + k, w);
                 }
               }, [=](uint64_t i) { return mkl(i % (2 * 18 * 18)).urdf(); }});
  // every pattern of zero and non-zero coordinates of an inertial origin, a joint origin, the base and the joint angles
  f.push_back({"sparse", 64ull * 64 * 64, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int b = d.pick(64), o = d.pick(64), m = d.pick(64), t = (int)(i * 7 / 64 % 9);
                 Robot r = make(tree(3, 0), {Kind{t % 3, 2, 4}, Kind{t / 3, 2, 1}}, i % 6, true);
                 masked_origin(r.joints[i / 3 & 1], o);
                 Link &l = r.links[i / 5 % 3];
                 l.com = masked(m, 0.2, -0.3, 0.45);
                 l.crpy = masked(m >> 3, 0.6, 0.3, -1.1);
                 Sys s(r);
                 s.set({i % 7 < 5 ? 0.7 : 0, i % 11 < 8 ? -1.3 : 0});
                 s.set_base(masked_base(b));
                 const std::string w = c.replay ? describe(r, &s.q, &s.base) : "";
                 c.step(3);
                 cmp_com(c, s, "com", w);
                 cmp_comjac(c, s, s.movable(), i & 1, "com-jacobian", w);
                 cmp_mass(c, s, "mass", w);
                 c.state(state_hash(s, i));
               }, nullptr});
  // inertial frames and bases turned by more than a half or a full turn about each axis
  f.push_back({"turns", 3ull * NTURN * NTURN * NTURN * NTURN, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int k = d.pick(3);
                 A3 a = turns(d);
                 A3 b{{TURN[d.pick(NTURN)], TURN[(i / 7) % NTURN], TURN[(i / 91 + 3) % NTURN]}};
                 Robot r = make(tree(3, 0), {Kind{REV, 2, 4}, Kind{(int)(i % 3), 2, 1}}, i % 6, true);
                 Link &l = r.links[k];
                 set_inertial(l, 3, 1);
                 l.crpy = a;
                 Sys s(r);
                 s.set({0.7, -1.3});
                 Base g;
                 g.xyz = A3{{0.2, -1, 3}};
                 std::rotate(b.begin(), b.begin() + i % 3, b.end());
                 g.rpy = b;
                 s.set_base(g);
                 const std::string w = c.replay ? describe(r, &s.q, &s.base) : "";
                 c.step();
                 cmp_com(c, s, "com", w);
                 cmp_comjac(c, s, s.movable(), i & 1, "com-jacobian", w);
                 c.state(state_hash(s, i));
               }, nullptr});
  f.push_back({"large", NSPECIAL * 9, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int w = d.pick(NSPECIAL), k = d.pick(3);
                 run(c, special(w, k, d.pick(3), true), i);
               }, nullptr});
  f.push_back({"samples", 18, [=](uint64_t i, mc::Ctx &c) {
                 Sys s = load_sample(i % 3);
                 for (int k = 0; k < 3; k++) {
                   s.set(sample_q(s.rb, k));
                   s.set_base(BASES[i / 3]);
                   everything(c, s, (int)i + k, "sample");
                 }
                 do_add(c, s, 5, A3{{3, 1, 2}}, A3{{0.1, 0, 0}}, "tool", i & 1, "add");
                 everything(c, s, 0, "sample with tool");
               }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
