// C11: loading is faithful to the description and independent of its formatting.
#include "doc.hpp"
#include "hist.hpp"
#include <algorithm>
#include <fstream>
using namespace bind;
typedef std::vector<std::pair<int, int>> Dev;

static void check_km(mc::Ctx &c, KM *km, const doc::Doc &d, const std::string &where, const std::string &key) {
  Sys s;
  s.rb = doc::to_robot(d);
  s.m.reset(km);
  s.bindids();
  std::vector<LD> q(s.rb.joints.size());
  for (size_t j = 0; j < q.size(); j++)
    q[j] = s.rb.joints[j].movable() ? 0.5 + 0.75 * j : 0;
  s.set(q);
  Base b;
  b.xyz = A3{{0.5, -1, 2}};
  b.rpy = A3{{0.25, 0.5, -1}};
  s.set_base(b);
  for (int l = 0; l < (int)s.rb.links.size(); l++)
    cmp_link(c, s, l, key + "-pose", where);
  cmp_mass(c, s, key + "-mass", where);
  if (s.rb.mass() != 0) {
    cmp_com(c, s, key + "-com", where);
    cmp_inertia(c, s, key + "-inertia", where);
  }
  std::vector<int> mv = s.movable();
  auto id = s.movable_ids();
  auto pl = s.m->get_joint_position_limits(id);
  auto vl = s.m->get_joint_velocity_limits(id);
  auto el = s.m->get_joint_effort_limits(id);
  for (size_t k = 0; k < mv.size(); k++) {
    const ref::Joint &j = s.rb.joints[mv[k]];
    bool cont = j.type == CONT;
    c.near(key + "-limits", pl[k].first, cont ? -INFINITY : j.lower, 0, where + " lower " + j.name);
    c.near(key + "-limits", pl[k].second, cont ? INFINITY : j.upper, 0, where + " upper " + j.name);
    if (j.has_limit) {
      c.near(key + "-limits", vl[k], j.vel, 0, where + " velocity " + j.name);
      c.near(key + "-limits", el[k], j.effort, 0, where + " effort " + j.name);
    }
  }
  size_t nl = s.rb.links.size(), nj = 0;
  for (auto &l : s.rb.links)
    nl += l.inertial;
  for (auto &j : s.rb.joints)
    nj += j.movable();
  c.eqi(key + "-count", s.m->get_link_names().size(), nl, where + " link names");
  c.eqi(key + "-count", s.m->get_joint_names().size(), nj, where + " joint names");
}

static bool check_text(mc::Ctx &c, const doc::Made &m, int base, bool km) {
  c.step();
  std::string where = "base " + std::to_string(base) + " [" + m.ch.describe() + "]";
  if (c.replay)
    printf("---- %s\n%s\n", where.c_str(), m.text.c_str());
  auto p = urdf::parseURDF(m.text);
  c.state(mc::mixs(base, m.text));
  if (!c.check("rejected", p != nullptr, where + " rejected"))
    return false;
  bool ok = doc::cmp_model(c, "model", *p, m.d, where);
  if (km) {
    KM *k = nullptr;
    try {
      k = new KM(m.text);
    } catch (std::exception &e) {
      c.fail("km-rejected", where + " rejected: " + e.what());
      return false;
    }
    check_km(c, k, m.d, where, "km");
  }
  return ok;
}

static std::string scratch() {
  const char *s = getenv("MC_SCRATCH");
  return std::string(s ? s : "/tmp") + "/doc" + std::to_string(getpid()) + ".urdf";
}
static void check_file(mc::Ctx &c, const doc::Made &m, int base) {
  std::string where = "base " + std::to_string(base) + " [" + m.ch.describe() + "] from a file";
  std::string path = scratch();
  {
    std::ofstream f(path.c_str(), std::ios::binary);
    f << m.text;
  }
  c.step(2);
  auto p = urdf::parseURDFFile(path);
  if (c.check("file-rejected", p != nullptr, where + " rejected by parseURDFFile"))
    doc::cmp_model(c, "file", *p, m.d, where);
  try {
    KM *k = new KM(tinyfk::load_urdf(path));
    check_km(c, k, m.d, where, "file-km");
  } catch (std::exception &e) {
    c.fail("file-rejected", where + " load_urdf: " + e.what());
  }
  unlink(path.c_str());
}

static void add(std::vector<mc::Family> &f, const std::string &name, int base, int mask, bool pairs, int kmpairs) {
  doc::Made plain = doc::make_doc(base, mask, {});
  auto first = doc::deviations(plain.ch);
  auto dev = [=](uint64_t i) { return i == 0 ? Dev{} : Dev{first[i - 1]}; };
  f.push_back({name, first.size() + 1,
               [=](uint64_t i, mc::Ctx &c) {
                 Dev d = dev(i);
                 doc::Made m = doc::make_doc(base, mask, d);
                 if (!check_text(c, m, base, true))
                   return;
                 check_file(c, m, base);
                 if (!pairs || d.empty())
                   return;
                 uint64_t n = 0;
                 for (auto &e : doc::deviations(m.ch, d[0].first + 1)) {
                   Dev d2 = d;
                   d2.push_back(e);
                   check_text(c, doc::make_doc(base, mask, d2), base, kmpairs && n++ % kmpairs == 0);
                 }
               },
               [=](uint64_t i) { return doc::make_doc(base, mask, dev(i)).text; }});
}

// documents with one very long run of characters, at sizes where buffers end
static const size_t LENS[] = {255, 1023, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 65534, 65535, 65536, 65537, 131072, 300000};
const int NLEN = sizeof LENS / sizeof *LENS, NRUN = 9;
static Robot long_robot(int what, size_t n) {
  Robot r = make(tree(3, 0), {Kind{REV, 2, 4}, Kind{PRIS, 1, 5}}, 0, true);
  if (what == 0)
    r.links[2].name = std::string(n, 'x');
  if (what == 1)
    r.joints[0].name = "j" + std::string(n, '_') + "k";
  if (what == 8)
    r.links[0].name = std::string(n / 2, 'p') + " " + std::string(n / 2, 'q');
  return r;
}
static std::string long_text(const Robot &r, int what, size_t n) {
  std::string t = r.urdf();
  size_t at = t.find("<joint");
  switch (what) {
  case 2:
    t.insert(at, "<!--" + std::string(n, 'c') + "-->");
    break;
  case 3:
    t.insert(at, std::string(n, ' '));
    break;
  case 4:
    t.insert(at + 6, std::string(n, ' '));
    break;
  case 5:
    t.insert(at, "<gazebo reference='" + std::string(n, 'g') + "'>" + std::string(n, 't') + "</gazebo>");
    break;
  case 6:
    t.insert(0, std::string(n, '\n'));
    break;
  case 7:
    for (size_t k = 0; k < n / 8; k++)
      t.insert(at, "<a>&lt;</a>");
    break;
  }
  return t;
}
static void add_long(std::vector<mc::Family> &f) {
  f.push_back({"long", (uint64_t)NLEN * NRUN * 4, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int what = d.pick(NRUN);
                 size_t n = LENS[d.pick(NLEN)];
                 int nl = d.pick(4);
                 if (what == 7 && n > 40000)
                   n = 40000;
                 Robot r = long_robot(what, n);
                 std::string t = long_text(r, what, n);
                 if (nl != 1) { // one line per element, with LF, CR LF or CR; 1: everything in one line
                   std::string u, e = nl == 0 ? "\n" : nl == 2 ? "\r\n" : "\r";
                   for (char ch : t) {
                     u += ch == '\n' ? e : std::string(1, ch);
                     if (ch == '>')
                       u += e;
                   }
                   t = u;
                 } else
                   t.erase(std::remove(t.begin() + (what == 6 ? n : 0), t.end(), '\n'), t.end());
                 c.state(mc::mixs(i, t));
                 std::string path = scratch(), where = "run " + std::to_string(what) + " of " + std::to_string(n) + " characters, lines " + std::to_string(nl);
                 {
                   std::ofstream o(path.c_str(), std::ios::binary);
                   o << t;
                 }
                 for (int way = 0; way < 2; way++) {
                   c.step();
                   try {
                     Sys s;
                     s.rb = r;
                     s.m.reset(new KM(way ? tinyfk::load_urdf(path) : t));
                     s.bindids();
                     s.set({0.7, -0.4});
                     s.set_base(BASES[2]);
                     for (int l = 0; l < r.n_all(); l++)
                       cmp_link(c, s, l, way ? "long-file" : "long-text", where);
                     c.eqi("long-count", (long)s.m->get_link_names().size() - 3, (long)std::count_if(r.links.begin(), r.links.end(), [](const ref::Link &l) { return l.inertial; }), where);
                   } catch (std::exception &e) {
                     c.fail(way ? "long-file" : "long-text", where + " rejected: " + std::string(e.what()).substr(0, 100));
                   }
                 }
                 c.step();
                 auto p = urdf::parseURDFFile(path);
                 c.check("long-file", p && p->links_.size() == r.links.size() && p->joints_.size() == r.joints.size(), where + " parseURDFFile");
                 unlink(path.c_str());
               }, nullptr});
}

// every single number of a description takes every value of a list, on the
// plain description and on each one that leaves something out or differs in form
static void add_numbers(std::vector<mc::Family> &f, int base) {
  const int mask = doc::SEM | doc::NUMS;
  doc::Made plain = doc::make_doc(base, mask, {});
  Dev sem{{-1, 0}};
  for (auto &e : doc::deviations(plain.ch))
    if (plain.ch.kinds[e.first] == doc::SEM)
      sem.push_back(e);
  f.push_back({"numbers-base" + std::to_string(base), sem.size(), [=](uint64_t i, mc::Ctx &c) {
                 Dev d;
                 if (i)
                   d.push_back(sem[i]);
                 doc::Made first = doc::make_doc(base, mask, d);
                 for (auto &e : doc::deviations(first.ch)) {
                   if (first.ch.kinds[e.first] != doc::NUMS)
                     continue;
                   Dev d2 = d;
                   d2.push_back(e);
                   doc::Made m = doc::make_doc(base, mask, d2);
                   bool sane = i == 0 || i % 5 == 2; // where the derived quantities neither overflow nor depend on the last digits
                   Robot r = doc::to_robot(m.d);
                   for (auto &l : r.links)
                     for (double x : {l.mass, l.com[0], l.com[1], l.com[2], l.I[0], l.I[1], l.I[2], l.I[3], l.I[4], l.I[5]})
                       sane = sane && std::fabs(x) < 1e5;
                   for (auto &j : r.joints) {
                     LD n = j.axis[0] * j.axis[0] + j.axis[1] * j.axis[1] + j.axis[2] * j.axis[2];
                     for (int k = 0; k < 3; k++)
                       sane = sane && std::fabs(j.xyz[k]) < 1e5;
                     sane = sane && (j.type == FIX || std::fabs(n - 1) < 1e-9); // axes of unit length
                   }
                   sane = sane && (r.mass() == 0 || r.mass() > 0.1);
                   check_text(c, m, base, sane);
                 }
               },
               [=](uint64_t i) { return doc::make_doc(base, mask, i ? Dev{sem[i]} : Dev{}).text; }});
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  add_long(f);
  for (int b = 1; b < (thorough ? doc::Gen::NBASE : 3); b++)
    add_numbers(f, b);
  for (int b = 0; b < doc::Gen::NBASE; b++) {
    std::string n = "base" + std::to_string(b);
    bool pairs = b <= 2 || thorough;
    add(f, n + "-all", b, doc::SEM | doc::FMT, pairs, 1);
    if (!pairs && b <= 3)
      add(f, n + "-sem", b, doc::SEM, true, 1);
  }
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
