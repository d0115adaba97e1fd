// C10: names, ids and limits agree with the robot description.
#include "hist.hpp"
using namespace bind;

static const std::vector<std::string> NAMES = {"a", "b", "a_com", "aa", "A", "a_com_", "a/b c", "\xC3\xA9<&>\"'", "b_com", "_com", "j", "0"};

static std::vector<std::string> unknown(const std::set<std::string> &known) {
  std::vector<std::string> v;
  std::set<std::string> cand = {"", " ", "zz", "nope", "_com", "_", std::string("a\0b", 3)};
  for (auto &n : known) {
    static const std::string some = " /\\.:_-#~0\t\n";
    bool first = n == *known.begin() || n == *known.rbegin();
    for (int ch = 1; ch < 256; ch++)
      if (first || some.find((char)ch) != std::string::npos) {
        cand.insert(n + (char)ch);
        cand.insert((char)ch + n);
      }
    cand.insert("r/" + n); // r: the robot's name
    cand.insert("/r/" + n);
    cand.insert("r::" + n);
    if (n.size() > 1) {
      cand.insert(n.substr(1));
      cand.insert(std::string(n.rbegin(), n.rend()));
    }
    cand.insert(n + n);
    cand.insert(n + "x");
    cand.insert(n + "_com");
    cand.insert(n + "_com_");
    cand.insert(n.substr(0, n.size() - 1));
    std::string u = n;
    for (auto &ch : u)
      ch = isupper((unsigned char)ch) ? tolower(ch) : toupper(ch);
    cand.insert(u);
    cand.insert(n + std::string(1, '\0'));
  }
  for (auto &n : NAMES)
    cand.insert(n);
  for (auto &n : cand)
    if (!known.count(n))
      v.push_back(n);
  return v;
}
template <class F> static bool throws(F f) {
  try {
    f();
    return false;
  } catch (std::exception &) {
    return true;
  }
}

static void lookups(mc::Ctx &c, Sys &s, const std::string &what) {
  KM &m = *s.m;
  c.step();
  cmp_ids(c, s, "ids", what);
  auto ln = m.get_link_names();
  auto jn = m.get_joint_names();
  std::set<std::string> ls(ln.begin(), ln.end()), js(jn.begin(), jn.end());
  c.check("unique", ls.size() == ln.size() && js.size() == jn.size(), what + " names are not unique");
  auto order = [&](std::vector<std::string> names, bool link) {
    size_t n = names.size();
    std::map<std::string, size_t> id;
    for (size_t i = 0; i < n; i++)
      id[names[i]] = i;
    std::vector<std::vector<std::string>> asks;
    asks.push_back({});
    asks.push_back(names);
    std::reverse(names.begin(), names.end());
    asks.push_back(names);
    for (auto &x : names)
      asks.push_back({x}), asks.push_back({x, x}), asks.push_back({x, names[0], x, names[n / 2]});
    for (auto &a : asks) {
      auto got = link ? m.get_link_ids(a) : m.get_joint_ids(a);
      bool ok = got.size() == a.size();
      for (size_t i = 0; ok && i < a.size(); i++)
        ok = got[i] == id[a[i]];
      c.step();
      c.check("lookup", ok, what + (link ? " link" : " joint") + " lookup of " + std::to_string(a.size()) + " names");
    }
    for (auto &u : unknown(link ? ls : js)) {
      std::vector<std::vector<std::string>> bad = {{u}};
      if (n) {
        bad.push_back({names[0], u});
        bad.push_back({u, names[n - 1]});
      }
      for (auto &b : bad) {
        c.step();
        c.check("unknown", throws([&] { link ? m.get_link_ids(b) : m.get_joint_ids(b); }), what + (link ? " unknown link" : " unknown joint") + " [" + u + "] is not rejected");
      }
    }
    if (n) // the failed lookups change nothing
      c.check("lookup", (link ? m.get_link_ids({names[0]}) : m.get_joint_ids({names[0]}))[0] == id[names[0]], what + " lookup after a failed one");
  };
  order(ln, true);
  order(jn, false);
  uint64_t h = 0;
  for (auto &n : ln)
    h = mc::mixs(h, n);
  for (auto &n : jn)
    h = mc::mixs(h, n);
  c.state(h);
}

// three links and two joints with any distinct names of the list, any of the links with inertial data
static Robot named(uint64_t i, int nn) {
  mc::Digits d(i);
  uint64_t t = d.pick(2), w = d.pick(8), jt = d.pick(4);
  std::vector<std::string> pool(NAMES.begin(), NAMES.begin() + nn);
  Robot r = make(tree(3, t), {{(int)(jt & 1 ? FIX : REV), 2, 1}, {(int)(jt & 2 ? PRIS : CONT), 1, 0}}, 0);
  for (int k = 0; k < 3; k++) {
    uint64_t x = d.pick(pool.size());
    r.links[k].name = pool[x];
    pool.erase(pool.begin() + x);
    r.links[k].inertial = w >> k & 1;
    r.links[k].mass = 1 + k;
    r.links[k].com = A3{{0.5 * k, 1, 0}};
    r.links[k].I[0] = r.links[k].I[3] = r.links[k].I[5] = 1;
  }
  uint64_t x = d.pick(4); // joint names, also equal to link names
  static const char *jn[4][2] = {{"j", "i"}, {"a", "b"}, {"b", "a_com"}, {"a/b c", "\xC3\xA9<&>\"'"}};
  r.joints[0].name = jn[x][0];
  r.joints[1].name = jn[x][1];
  return r;
}
static uint64_t nnamed(int nn) { return 2ull * 8 * 4 * nn * (nn - 1) * (nn - 2) * 4; }

static void names_case(mc::Ctx &c, const Robot &r, bool deep) {
  Sys s(r);
  std::string what = c.replay ? r.urdf() : "robot " + r.links[0].name + "," + r.links[1].name + "," + r.links[2].name;
  if (deep)
    lookups(c, s, what);
  else {
    c.step();
    cmp_ids(c, s, "ids", what);
  }
  // an id denotes the link and the joint of that name
  std::vector<LD> q(r.joints.size(), 0);
  for (size_t j = 0; j < q.size(); j++)
    q[j] = r.joints[j].movable() ? 0.5 + j : 0;
  s.set(q);
  for (int l = 0; l < 3; l++)
    cmp_link(c, s, l, "id-pose", what);
  if (s.rb.mass() != 0)
    cmp_com(c, s, "id-com", what);
  // added links
  std::vector<std::string> ln = s.m->get_link_names();
  for (auto &n : {std::string("new"), std::string("a_com"), std::string("A"), std::string("")}) {
    bool taken = std::find(ln.begin(), ln.end(), n) != ln.end();
    if (taken) {
      c.check("taken", throws([&] { do_add(c, s, 0, A3{{1, 0, 0}}, A3{{0, 0, 0}}, n, true, "added"); }), what + " taken name " + n);
    } else
      do_add(c, s, 1, A3{{1, 0, 0}}, A3{{0, 0.5, 0}}, n, false, "added");
    ln = s.m->get_link_names();
  }
  if (deep)
    lookups(c, s, what + " with added links");
  else {
    c.step();
    cmp_ids(c, s, "ids", what + " with added links");
  }
}

// limits
static const double LIM[] = {0, -1.5, 2.25, 1e-3, 1e6, -7};
static void limits_case(mc::Ctx &c, uint64_t i) {
  mc::Digits d(i);
  Robot r = make(tree(4, d.pick(6)), {{REV, 2, 1}, {REV, 0, 1}, {REV, 1, 1}}, d.pick(24));
  for (int k = 0; k < 3; k++) {
    ref::Joint &j = r.joints[k];
    j.type = (int)d.pick(k == 0 ? 4 : 3);
    uint64_t v = d.pick(k == 0 ? 6 : 2);
    j.lower = LIM[(v + k) % 6];
    j.upper = LIM[(v * 5 + 2 * k + 1) % 6];
    j.vel = LIM[(v + 3) % 6];
    j.effort = LIM[(v + 2 * k + 4) % 6];
    if (j.type == CONT)
      j.has_limit = d.pick(2);
  }
  Sys s(r);
  std::string what = c.replay ? r.urdf() : "limits";
  auto mv = s.movable();
  int n = (int)mv.size();
  std::vector<std::vector<int>> asks = {{}};
  for (uint64_t k = 0; k < nfact(n); k++) {
    std::vector<int> p = perm(n, k), a;
    for (int x : p)
      a.push_back(mv[x]);
    asks.push_back(a);
  }
  for (int x : mv)
    asks.push_back({x}), asks.push_back({x, mv[0], x});
  if (i % 3 == 0 && n) { // limits do not depend on the configuration or on added links
    std::vector<LD> q(r.joints.size(), 0);
    for (int x : mv)
      q[x] = 9;
    s.set(q);
    do_add(c, s, 2, A3{{0, 0, 1}}, A3{{0, 0, 0}}, "extra", true, "added");
  }
  for (auto &a : asks) {
    std::vector<size_t> id;
    for (int x : a)
      id.push_back(s.jid[x]);
    auto p = s.m->get_joint_position_limits(id);
    auto v = s.m->get_joint_velocity_limits(id);
    auto e = s.m->get_joint_effort_limits(id);
    c.step(3);
    if (!c.check("limits", p.size() == a.size() && v.size() == a.size() && e.size() == a.size(), what + " number of limits"))
      continue;
    for (size_t k = 0; k < a.size(); k++) {
      const ref::Joint &j = r.joints[a[k]];
      bool cont = j.type == CONT;
      c.near("position", p[k].first, cont ? -INFINITY : j.lower, 0, what + " lower limit of " + j.name);
      c.near("position", p[k].second, cont ? INFINITY : j.upper, 0, what + " upper limit of " + j.name);
      if (j.has_limit) {
        c.near("velocity", v[k], j.vel, 0, what + " velocity limit of " + j.name);
        c.near("effort", e[k], j.effort, 0, what + " effort limit of " + j.name);
      } else {
        c.check("velocity", v[k] == INFINITY, what + " velocity limit of unlimited " + j.name);
        c.check("effort", e[k] == INFINITY, what + " effort limit of unlimited " + j.name);
      }
    }
  }
  uint64_t h = 7;
  for (auto &j : r.joints)
    h = mc::mix(mc::mixd(mc::mixd(mc::mixd(mc::mixd(h, j.lower), j.upper), j.vel), j.effort), j.type * 2 + j.has_limit);
  c.state(h);
}

std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  int nn = thorough ? 12 : 8;
  f.push_back({"names", nnamed(nn), [=](uint64_t i, mc::Ctx &c) { names_case(c, named(i, nn), thorough || i % 16 == (i / 16) % 16); }, [=](uint64_t i) { return named(i, nn).urdf(); }});
  f.push_back({"limits", 6ull * 24 * 4 * 6 * 3 * 2 * 3 * 2 * 8, [](uint64_t i, mc::Ctx &c) { limits_case(c, i); }, nullptr});
  // many links and joints, so that ids and names in alphabetical and document order differ
  f.push_back({"many", 24, [=](uint64_t i, mc::Ctx &c) {
                 int n = i < 6 ? 12 : i < 12 ? 130 : i < 18 ? 300 : 3;
                 std::vector<int> p(n, 0);
                 std::vector<Kind> ks;
                 for (int k = 1; k < n; k++) {
                   p[k] = i % 3 == 0 ? k - 1 : i % 3 == 1 ? 0 : k / 2;
                   ks.push_back(Kind{(int)(k % 4), k % 3, 1});
                 }
                 Robot r = make(p, ks, 0, i & 1);
                 for (int k = 0; k < n; k++)
                   r.links[k].name = "l" + std::to_string((k * 7) % n);
                 for (int k = 0; k + 1 < n; k++)
                   r.joints[k].name = "j" + std::to_string((k * 5 + 3) % n) + "_" + std::to_string(k);
                 if (i >= 18) { // long names which differ only at the end
                   size_t len = i & 1 ? 300 : 70000;
                   for (auto &l : r.links)
                     l.name = std::string(len, 'x') + l.name;
                   for (auto &j : r.joints)
                     j.name = std::string(len, 'x') + j.name;
                 }
                 Sys s(r);
                 lookups(c, s, "robot with " + std::to_string(n) + " links");
               },
               nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
