// Larger fixed robots: chains, stars, binary trees, combs, and the sample robots.
#pragma once
#include "bind.hpp"
#include <fstream>

namespace bind {
inline std::vector<int> special_tree(int which) {
  const int big = getenv("MC_SMALL") ? 90 : 420; // the slow variants use smaller robots
  std::vector<int> p{-1};
  switch (which) {
  case 0:
    for (int i = 1; i < 45; i++) // chain
      p.push_back(i - 1);
    break;
  case 1:
    for (int i = 1; i < 75; i++) // star
      p.push_back(0);
    break;
  case 2:
    for (int i = 1; i < 63; i++) // binary
      p.push_back((i - 1) / 2);
    break;
  case 3:
    for (int i = 1; i < 50; i++) // comb
      p.push_back(i % 2 ? std::max(0, i - 2) : i - 1);
    break;
  case 4:
    for (int i = 1; i < big / 3; i++) // long chain
      p.push_back(i - 1);
    break;
  case 5:
    for (int i = 1; i < big; i++) // ternary, more links than fit a byte
      p.push_back((i - 1) / 3);
    break;
  case 6:
    for (int i = 1; i < big - 20; i++) // chain, more links than fit a byte
      p.push_back(i - 1);
    break;
  }
  return p;
}
enum { NSPECIAL = 7 };
inline Robot special(int which, int kindset, int naming, bool masses) {
  auto p = special_tree(which);
  int n = (int)p.size();
  auto K = kindset == 0 ? kinds_mid() : kindset == 1 ? std::vector<Kind>{{REV, 2, 4}} : std::vector<Kind>{{FIX, 1, 0}, {PRIS, 2, 5}, {FIX, 2, 0}};
  std::vector<Kind> ks;
  for (int i = 1; i < n; i++)
    ks.push_back(K[(i * 5 + 2) % K.size()]);
  Robot r = make(p, ks, 0, masses);
  auto nm = [](char c, int k) { char b[16]; snprintf(b, sizeof b, "%c%03d", c, k); return std::string(b); };
  for (int i = 0; i < n; i++) {
    int k = naming == 0 ? i : naming == 1 ? n - 1 - i : (i * 37 + 11) % 997;
    r.links[i].name = nm('L', k);
    if (i)
      r.joints[i - 1].name = nm('J', naming == 2 ? (i * 53 + 7) % 997 : 900 - k);
    if (masses && i % 3 == 1)
      r.links[i].inertial = false;
  }
  if (naming == 2) // document order unlike tree order
    std::reverse(r.joints.begin(), r.joints.end());
  return r;
}
// sample robots, read by an independent XML reader; empty when not available
inline Robot sample(const std::string &name, std::string &text) {
  Robot r;
  std::ifstream s(std::string(getenv("MC_WORK") ? getenv("MC_WORK") : ".") + "/" + name + ".spec");
  std::string t;
  while (s >> t) {
    if (t == "L") {
      Link l;
      int in;
      s >> l.name >> in;
      if (in) {
        l.inertial = true;
        s >> l.mass >> l.com[0] >> l.com[1] >> l.com[2] >> l.crpy[0] >> l.crpy[1] >> l.crpy[2];
        for (int k = 0; k < 6; k++)
          s >> l.I[k];
      }
      r.links.push_back(l);
    } else {
      Joint j;
      int li;
      s >> j.name >> j.type >> j.parent >> j.child >> j.xyz[0] >> j.xyz[1] >> j.xyz[2] >> j.rpy[0] >> j.rpy[1] >> j.rpy[2] >>
          j.axis[0] >> j.axis[1] >> j.axis[2] >> li >> j.lower >> j.upper >> j.vel >> j.effort;
      j.has_limit = li;
      r.joints.push_back(j);
    }
  }
  std::ifstream u(std::string(getenv("MC_REPO") ? getenv("MC_REPO") : "/repo") + "/data/" + name + ".urdf");
  std::stringstream ss;
  ss << u.rdbuf();
  text = ss.str();
  return r;
}
inline Sys load_sample(int k) {
  static const char *n[] = {"pr2", "fetch", "kuka"};
  std::string text;
  Sys s;
  s.rb = sample(n[k], text);
  if (s.rb.links.empty() || text.empty())
    throw std::runtime_error("sample robot is missing");
  s.m.reset(new KM(text));
  s.bindids();
  return s;
}
inline std::vector<LD> sample_q(const Robot &r, int k) {
  std::vector<LD> q;
  for (size_t j = 0; j < r.joints.size(); j++)
    q.push_back(k == 0 ? 0.0L : (LD)(double)(((int)((j + 1) * (7 + 5 * k)) % 23 - 11) * 0.21));
  return q;
}
} // namespace bind
