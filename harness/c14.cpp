// C14: exporting a model and loading it again preserves the robot.
#include "doc.hpp"
#include "hist.hpp"
#include "special.hpp"
#include <memory>
typedef std::vector<std::pair<int, int>> Dev;
static const double TOL = 1e-5; // numbers are printed with six significant digits

static std::string print(const TiXmlDocument &x) {
  TiXmlPrinter p;
  x.Accept(&p);
  return p.CStr();
}
static urdf::ModelInterfaceSharedPtr round_trip(mc::Ctx &c, urdf::ModelInterfaceSharedPtr p, const std::string &where, std::string &text) {
  std::unique_ptr<TiXmlDocument> x(urdf::exportURDF(p));
  std::unique_ptr<TiXmlDocument> y(urdf::exportURDF(*p));
  if (!c.check("no-export", x && y, where + " nothing exported"))
    return nullptr;
  text = print(*x);
  c.eq("overloads", print(*y), text, where + " exports differ");
  c.step();
  auto q = urdf::parseURDF(text);
  if (c.replay)
    printf("exported:\n%s\n", text.c_str());
  c.check("export-invalid", q != nullptr, where + " exported text is not accepted: " + text.substr(0, 1200));
  return q;
}
static void check(mc::Ctx &c, const doc::Made &m, int base) {
  std::string where = "base " + std::to_string(base) + " [" + m.ch.describe() + "]";
  if (c.replay)
    printf("---- %s\n%s\n", where.c_str(), m.text.c_str());
  auto p = urdf::parseURDF(m.text);
  if (!p)
    return c.fail("rejected", where + " not parsed");
  std::string t1, t2;
  auto q = round_trip(c, p, where, t1);
  c.state(mc::mixs(1, t1));
  doc::cmp_model(c, "modified", *p, m.d, where + " after exporting it");
  if (!q)
    return;
  doc::cmp_model(c, "reloaded", *q, m.d, where + " reloaded", TOL);
  auto r = round_trip(c, q, where, t2);
  if (r)
    doc::cmp_model(c, "twice", *r, m.d, where + " exported twice", 2 * TOL);
}

// values of every magnitude at every numeric place
static const double VALS[] = {0, 1, -1, 0.1, -0.1, 1e-3, 123456, 1234567, -98765.4321, 1e-7, -2.5e-10, 3.14159265358979, 1e15, 1e-300, -1e300, 100000, 999999.5, 0.000012345678};
static const int NV = sizeof VALS / sizeof *VALS;
static std::vector<std::function<void(doc::Doc &, double)>> places() {
  using doc::Doc;
  std::vector<std::function<void(Doc &, double)>> v;
  for (int k = 0; k < 3; k++) {
    v.push_back([k](Doc &d, double x) { d.joints[0].xyz[k] = x; });
    v.push_back([k](Doc &d, double x) { d.joints[0].axis[k] = x; });
    v.push_back([k](Doc &d, double x) { d.links[0].ixyz[k] = x; });
    v.push_back([k](Doc &d, double x) { d.links[0].vis[0].xyz[k] = x; });
    v.push_back([k](Doc &d, double x) { d.links[0].col[0].xyz[k] = x; });
    v.push_back([k](Doc &d, double x) { d.links[0].vis[1].g.d[k] = x; });
    v.push_back([k](Doc &d, double x) { d.links[0].col[1].g.d[k] = x; });
  }
  for (int k = 0; k < 6; k++)
    v.push_back([k](Doc &d, double x) { d.links[0].I[k] = x; });
  v.push_back([](Doc &d, double x) { d.links[0].mass = x; });
  v.push_back([](Doc &d, double x) { d.links[0].vis[0].g.d[0] = x; });
  v.push_back([](Doc &d, double x) { d.links[0].col[0].g.d[0] = x; });
  v.push_back([](Doc &d, double x) { d.links[0].col[0].g.d[1] = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].lower = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].upper = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].effort = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].vel = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].klo = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].kup = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].kp = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].kv = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].rising = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].falling = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].mult = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].off = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].damp = x; });
  v.push_back([](Doc &d, double x) { d.joints[0].fric = x; });
  return v;
}
static std::vector<std::function<doc::A3 &(doc::Doc &)>> rotations() {
  std::vector<std::function<doc::A3 &(doc::Doc &)>> v;
  v.push_back([](doc::Doc &d) -> doc::A3 & { return d.joints[0].rpy; });
  v.push_back([](doc::Doc &d) -> doc::A3 & { return d.links[0].irpy; });
  v.push_back([](doc::Doc &d) -> doc::A3 & { return d.links[0].vis[0].rpy; });
  v.push_back([](doc::Doc &d) -> doc::A3 & { return d.links[0].col[1].rpy; });
  return v;
}
static doc::Doc full() {
  doc::Doc d;
  d.name = "full";
  doc::DLink a, b;
  a.name = "x", b.name = "w";
  a.inertial = true;
  a.mass = 2;
  for (int k = 0; k < 6; k++)
    a.I[k] = k + 1;
  doc::Vis s, x, y, m;
  s.g.kind = 0, x.g.kind = 1, y.g.kind = 2, m.g.kind = 3;
  m.g.scale = true;
  a.vis = {s, x};
  a.col = {y, m};
  d.links = {a, b};
  doc::DJoint j;
  j.name = "j";
  j.limits = j.safety = j.calib = j.has_rising = j.has_falling = j.mimic = j.dyn = true;
  j.lower = -1, j.upper = 1, j.effort = 5, j.vel = 6, j.klo = -2, j.kup = 3, j.kp = 4, j.kv = 7, j.rising = 0.5, j.falling = 0.25, j.mult = 3, j.off = 8, j.damp = 9, j.fric = 10;
  j.mj = "other";
  d.joints = {j};
  return d;
}
static std::string n17(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static std::string v17(const doc::A3 &a) { return n17(a[0]) + " " + n17(a[1]) + " " + n17(a[2]); }
static std::string o17(const doc::A3 &x, const doc::A3 &r) { return "<origin xyz='" + v17(x) + "' rpy='" + v17(r) + "'/>"; }
static std::string g17(const doc::Geo &g) {
  switch (g.kind) {
  case 0: return "<geometry><sphere radius='" + n17(g.d[0]) + "'/></geometry>";
  case 1: return "<geometry><box size='" + v17(g.d) + "'/></geometry>";
  case 2: return "<geometry><cylinder radius='" + n17(g.d[0]) + "' length='" + n17(g.d[1]) + "'/></geometry>";
  }
  return "<geometry><mesh filename='" + g.file + "' scale='" + v17(g.d) + "'/></geometry>";
}
static std::string full_text(const doc::Doc &d) {
  const doc::DLink &a = d.links[0];
  const doc::DJoint &j = d.joints[0];
  std::string s = "<robot name='full'><link name='x'><inertial>" + o17(a.ixyz, a.irpy) + "<mass value='" + n17(a.mass) + "'/><inertia";
  static const char *n[6] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  for (int k = 0; k < 6; k++)
    s += std::string(" ") + n[k] + "='" + n17(a.I[k]) + "'";
  s += "/></inertial>";
  for (auto &v : a.vis)
    s += "<visual>" + o17(v.xyz, v.rpy) + g17(v.g) + "</visual>";
  for (auto &v : a.col)
    s += "<collision>" + o17(v.xyz, v.rpy) + g17(v.g) + "</collision>";
  s += "</link><link name='w'/><joint name='j' type='revolute'>" + o17(j.xyz, j.rpy) + "<axis xyz='" + v17(j.axis) + "'/><parent link='x'/><child link='w'/>";
  s += "<limit lower='" + n17(j.lower) + "' upper='" + n17(j.upper) + "' effort='" + n17(j.effort) + "' velocity='" + n17(j.vel) + "'/>";
  s += "<safety_controller soft_lower_limit='" + n17(j.klo) + "' soft_upper_limit='" + n17(j.kup) + "' k_position='" + n17(j.kp) + "' k_velocity='" + n17(j.kv) + "'/>";
  s += "<calibration rising='" + n17(j.rising) + "' falling='" + n17(j.falling) + "'/><mimic joint='other' multiplier='" + n17(j.mult) + "' offset='" + n17(j.off) + "'/>";
  return s + "<dynamics damping='" + n17(j.damp) + "' friction='" + n17(j.fric) + "'/></joint></robot>";
}
static void check_full(mc::Ctx &c, const doc::Doc &d, const std::string &where) {
  doc::Made m;
  m.d = d;
  m.text = full_text(d);
  c.note = where;
  check(c, m, 100);
  c.note.clear();
}

static void add(std::vector<mc::Family> &f, int base, bool pairs) {
  doc::Made plain = doc::make_doc(base, doc::SEM, {});
  auto first = doc::deviations(plain.ch);
  auto dev = [=](uint64_t i) { return i == 0 ? Dev{} : Dev{first[i - 1]}; };
  f.push_back({"base" + std::to_string(base), first.size() + 1, [=](uint64_t i, mc::Ctx &c) {
                 Dev d = dev(i);
                 doc::Made m = doc::make_doc(base, doc::SEM, d);
                 check(c, m, base);
                 if (!pairs || d.empty())
                   return;
                 for (auto &e : doc::deviations(m.ch, d[0].first + 1)) {
                   Dev d2 = d;
                   d2.push_back(e);
                   check(c, doc::make_doc(base, doc::SEM, d2), base);
                 }
               },
               [=](uint64_t i) { return doc::make_doc(base, doc::SEM, dev(i)).text; }});
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  for (int b = 0; b < doc::Gen::NBASE; b++)
    add(f, b, true);
  // every value at every numeric place, and at every pair of places
  size_t np = places().size();
  f.push_back({"values", np * NV, [=](uint64_t i, mc::Ctx &c) {
                 auto pl = places();
                 mc::Digits g(i);
                 int p = (int)g.pick(np), v = (int)g.pick(NV);
                 doc::Doc d = full();
                 pl[p](d, VALS[v]);
                 check_full(c, d, "place " + std::to_string(p) + " value " + n17(VALS[v]));
                 int stepw = thorough ? 1 : 5;
                 for (int p2 = p + 1; p2 < (int)np; p2++)
                   for (int v2 = (p2 + v) % stepw; v2 < NV; v2 += stepw) {
                     doc::Doc e = d;
                     pl[p2](e, VALS[v2]);
                     check_full(c, e, "places " + std::to_string(p) + "," + std::to_string(p2));
                   }
               },
               nullptr});
  static const double A[] = {0, 0.3, -0.7, 1.5, -1.5, 2.2, -3.0, 3.14159265358979, 1e-4, 6.0};
  f.push_back({"rotations", 4 * 1000, [](uint64_t i, mc::Ctx &c) {
                 mc::Digits g(i);
                 int k = (int)g.pick(4);
                 doc::Doc d = full();
                 doc::A3 r{{A[g.pick(10)], A[g.pick(10)], A[g.pick(10)]}};
                 if (std::fabs(std::cos(r[1])) < 0.02) {
                   c.skipped++;
                   return;
                 }
                 rotations()[k](d) = r;
                 check_full(c, d, "rotation " + v17(r));
               },
               nullptr});
  // whole models: the reloaded model moves like the original
  f.push_back({"samples", 3 + bind::NSPECIAL * 3, [](uint64_t i, mc::Ctx &c) {
                 bind::Robot r;
                 if (i < 3) {
                   r = bind::load_sample((int)i).rb;
                 } else
                   r = bind::special((int)(i - 3) % bind::NSPECIAL, (int)(i - 3) / bind::NSPECIAL, 0, true);
                 auto p = urdf::parseURDF(r.urdf());
                 if (!c.check("rejected", p != nullptr, r.name))
                   return;
                 std::string t;
                 if (!round_trip(c, p, r.name, t))
                   return;
                 bind::Sys s(r, t);
                 for (int k = 0; k < 3; k++) {
                   s.set(bind::sample_q(r, k));
                   for (int l = 0; l < (int)r.links.size(); l++) {
                     tinyfk::Transform tf;
                     s.m->get_link_pose(s.lid[l], tf);
                     c.step();
                     bind::cmp_pose(c, "moves", tf, r.pose<ref::LD>(l, s.q, bind::base_iso(s.base)), r.name + " link " + r.links[l].name, 2e-3);
                   }
                 }
                 c.near("mass", s.m->total_mass_, (double)r.mass(), 1e-5, r.name + " mass");
               },
               nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
