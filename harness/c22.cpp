// C22: reading and writing robot descriptions ignores the process locale.
#include "doc.hpp"
#include "hist.hpp"
#include "special.hpp"
#include <clocale>
#include <locale.h>
#include <locale>
#include <memory>
#include <sys/stat.h>
typedef std::string S;
typedef std::vector<std::pair<int, int>> Dev;

struct Punct : std::numpunct<char> {
  char dp, ts;
  S gr;
  Punct(char d, char t, S g) : dp(d), ts(t), gr(g) {}
  char do_decimal_point() const override { return dp; }
  char do_thousands_sep() const override { return ts; }
  S do_grouping() const override { return gr; }
};
struct Env {
  const char *what;
  int kind;         // 0 facets in the C++ locale, 1 C locale, 2 both, 3 thread locale
  const char *name; // of the C locale
  char dp, ts;
  const char *gr;
  bool c_only_numeric;
};
static const Env ENV[] = {
    {"C++ locale with decimal comma and grouping by 3", 0, "", ',', '.', "\3", false},
    {"C++ locale with grouping by 1", 0, "", '.', ',', "\1", false},
    {"C++ locale with decimal comma", 0, "", ',', ' ', "", false},
    {"C++ locale with grouping by 2 and a blank", 0, "", '.', ' ', "\2", false},
    {"C++ locale with an e as decimal point", 0, "", 'e', '-', "\3\2", false},
    {"C locale de_DE", 1, "de_DE", 0, 0, 0, false},
    {"C++ and C locale de_DE", 2, "de_DE", 0, 0, 0, false},
    {"thread locale de_DE", 3, "de_DE", 0, 0, 0, false},
    {"C locale de_DE for numbers only", 1, "de_DE", 0, 0, 0, true},
    {"C locale tr_TR", 1, "tr_TR", 0, 0, 0, false},
    {"C++ and C locale tr_TR", 2, "tr_TR", 0, 0, 0, false},
};
static const int NENV = sizeof ENV / sizeof *ENV;
static S g_missing;

static void compile_locales() {
  const char *w = getenv("MC_WORK");
  S dir = S(w ? w : "/tmp") + "/locXXXXXX";
  if (!mkdtemp(&dir[0])) {
    g_missing = "no scratch directory for locales";
    return;
  }
  S ok;
  for (auto p : {std::make_pair("de_DE", "ISO-8859-1"), std::make_pair("tr_TR", "ISO-8859-9")}) {
    S cmd = S("localedef -i ") + p.first + " -f " + p.second + " --no-archive " + dir + "/" + p.first + " >/dev/null 2>&1";
    int r = system(cmd.c_str());
    (void)r;
  }
  setenv("LOCPATH", dir.c_str(), 1);
  for (const char *n : {"de_DE", "tr_TR"}) {
    locale_t l = newlocale(LC_ALL_MASK, n, (locale_t)0);
    if (!l)
      g_missing += S(" ") + n;
    else
      freelocale(l);
  }
}

struct Result {
  bool parsed = false, loaded = false;
  S text, again;
  std::vector<double> num;
  std::vector<S> names;
};
static S print(const TiXmlDocument &x) {
  TiXmlPrinter p;
  x.Accept(&p);
  return p.CStr();
}
static void num(Result &r, const urdf::Pose &p) {
  double q[4];
  p.rotation.getQuaternion(q[0], q[1], q[2], q[3]);
  for (double v : {p.position.x, p.position.y, p.position.z, q[0], q[1], q[2], q[3]})
    r.num.push_back(v);
}
static Result all(const S &text) {
  Result r;
  try {
    auto m = urdf::parseURDF(text);
    r.parsed = m != nullptr;
    if (m) {
      for (auto &j : m->joints_) {
        auto &x = *j.second;
        num(r, x.parent_to_joint_origin_transform);
        for (double v : {x.axis.x, x.axis.y, x.axis.z})
          r.num.push_back(v);
        if (x.limits)
          for (double v : {x.limits->lower, x.limits->upper, x.limits->effort, x.limits->velocity})
            r.num.push_back(v);
        if (x.dynamics)
          for (double v : {x.dynamics->damping, x.dynamics->friction})
            r.num.push_back(v);
        if (x.mimic)
          for (double v : {x.mimic->multiplier, x.mimic->offset})
            r.num.push_back(v);
      }
      for (auto &l : m->links_) {
        auto &x = *l.second;
        if (x.inertial) {
          num(r, x.inertial->origin);
          for (double v : {x.inertial->mass, x.inertial->ixx, x.inertial->ixy, x.inertial->ixz, x.inertial->iyy, x.inertial->iyz, x.inertial->izz})
            r.num.push_back(v);
        }
        for (auto &v : x.visual_array)
          num(r, v->origin);
      }
      std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(m));
      if (d) {
        r.text = print(*d);
        auto m2 = urdf::parseURDF(r.text);
        if (m2) {
          std::unique_ptr<TiXmlDocument> d2(urdf::exportURDF(m2));
          r.again = d2 ? print(*d2) : S("none");
        }
      }
    }
  } catch (const std::exception &) {
  }
  try {
    tinyfk::KinematicModel k(text);
    r.loaded = true;
    r.names = k.get_joint_names();
    for (auto &l : k.links_)
      r.names.push_back(l->name);
    std::vector<size_t> jid = k.get_joint_ids(r.names.size() ? k.get_joint_names() : std::vector<S>());
    std::vector<double> q(jid.size());
    for (size_t i = 0; i < q.size(); i++)
      q[i] = 0.1 + 0.07 * i;
    k.set_joint_angles(jid, q);
    for (size_t i = 0; i < k.links_.size(); i++) {
      tinyfk::Transform t;
      k.get_link_pose(i, t);
      num(r, t);
    }
    for (auto &lim : k.get_joint_position_limits(jid)) {
      r.num.push_back(lim.first);
      r.num.push_back(lim.second);
    }
    for (double v : k.get_joint_velocity_limits(jid))
      r.num.push_back(v);
    for (double v : k.get_joint_effort_limits(jid))
      r.num.push_back(v);
    size_t id = k.links_.size() ? 0 : 0;
    (void)id;
    k.add_new_link("added", 0, {1.5, 2.25, 1234.5}, {0.1, 0.2, 0.3});
    for (auto &l : k.links_)
      r.names.push_back(l->name);
    auto com = k.get_com();
    for (double v : {com.x, com.y, com.z})
      r.num.push_back(v);
  } catch (const std::exception &) {
  }
  return r;
}
static Result under(const Env &e, const S &text, bool &usable) {
  usable = true;
  std::locale old = std::locale();
  S oldc = setlocale(LC_ALL, nullptr);
  locale_t tl = (locale_t)0, ol = (locale_t)0;
  try {
    if (e.kind == 0)
      std::locale::global(std::locale(std::locale::classic(), new Punct(e.dp, e.ts, e.gr)));
    else if (e.kind == 1)
      usable = setlocale(e.c_only_numeric ? LC_NUMERIC : LC_ALL, e.name) != nullptr;
    else if (e.kind == 2)
      std::locale::global(std::locale(e.name));
    else {
      tl = newlocale(LC_ALL_MASK, e.name, (locale_t)0);
      usable = tl != (locale_t)0;
      if (tl)
        ol = uselocale(tl);
    }
  } catch (const std::runtime_error &) {
    usable = false;
  }
  Result r;
  if (usable)
    r = all(text);
  if (tl) {
    uselocale(ol);
    freelocale(tl);
  }
  std::locale::global(old);
  setlocale(LC_ALL, oldc.c_str());
  return r;
}
static void compare(mc::Ctx &c, const Env &e, const S &text, const S &where) {
  c.step();
  c.state(mc::mixs(mc::mixs(0, text), e.what));
  Result w = all(text);
  bool usable;
  Result g = under(e, text, usable);
  if (!usable) {
    c.skipped++;
    return;
  }
  S at = S(e.what) + ", " + where;
  if (c.replay)
    printf("%s\n%s\n", at.c_str(), text.c_str());
  c.check("accept", g.parsed == w.parsed && g.loaded == w.loaded, at + ": description " + (w.parsed ? "is not" : "is") + " accepted");
  c.eq("export", g.text, w.text, at + ": exported text");
  c.eq("export", g.again, w.again, at + ": text exported from the reloaded description");
  c.check("names", g.names == w.names, at + ": names differ");
  c.check("numbers", g.num.size() == w.num.size(), at + ": number of values differs");
  if (g.num.size() == w.num.size())
    for (size_t i = 0; i < g.num.size(); i++) {
      c.comparisons++;
      if (memcmp(&g.num[i], &w.num[i], 8) && !(g.num[i] == w.num[i])) {
        if (g.num[i] != g.num[i] && w.num[i] != w.num[i])
          continue;
        char b[120];
        snprintf(b, sizeof b, ": value %zu is %.17g instead of %.17g", i, g.num[i], w.num[i]);
        c.fail("numbers", at + b);
        break;
      }
    }
}
static bool numeric(const S &v) {
  if (v.empty())
    return false;
  std::istringstream is(v);
  is.imbue(std::locale::classic());
  double d;
  int n = 0;
  while (is >> d)
    n++;
  return is.eof() && n > 0;
}
static void replace_numbers(doc::El &e, const S &by) {
  for (auto &a : e.attrs)
    if (numeric(a.value) && a.name != "type" && a.name != "name" && a.name != "link" && a.name != "filename") {
      std::istringstream is(a.value);
      S w, o;
      while (is >> w)
        o += (o.empty() ? "" : " ") + by;
      a.value = o;
    }
  for (auto &k : e.kids)
    replace_numbers(k, by);
}
static void number_at(doc::El &e, int &n, const S &by) {
  for (auto &a : e.attrs)
    if (numeric(a.value) && n-- == 0)
      a.value = [&] {
        std::istringstream is(a.value);
        S w, o;
        while (is >> w)
          o += (o.empty() ? "" : " ") + by;
        return o;
      }();
  for (auto &k : e.kids)
    number_at(k, n, by);
}

static std::vector<mc::Family> make(bool thorough) {
  std::vector<mc::Family> F;
  struct Case {
    int base;
    Dev dev;
  };
  auto cases = std::make_shared<std::vector<Case>>();
  for (int b = 0; b < 5; b++) {
    auto m0 = doc::make_doc(b, doc::SEM | doc::FMT, {});
    cases->push_back({b, {}});
    for (auto &d : doc::deviations(m0.ch))
      cases->push_back({b, {d}});
  }
  F.push_back({"documents", cases->size() * NENV,
               [cases](uint64_t i, mc::Ctx &c) {
                 auto &k = (*cases)[i / NENV];
                 auto m = doc::make_doc(k.base, doc::SEM | doc::FMT, k.dev);
                 compare(c, ENV[i % NENV], m.text, "base " + std::to_string(k.base) + " [" + m.ch.describe() + "]");
                 if (c.thorough) // second deviations
                   for (auto &d : doc::deviations(m.ch, k.dev.empty() ? 0 : k.dev[0].first + 1)) {
                     if (k.dev.empty() || k.base > 2 || (d.second > 2))
                       continue;
                     Dev dv = k.dev;
                     dv.push_back(d);
                     auto m2 = doc::make_doc(k.base, doc::SEM | doc::FMT, dv);
                     compare(c, ENV[i % NENV], m2.text, "base " + std::to_string(k.base) + " [" + m2.ch.describe() + "]");
                   }
               },
               nullptr});
  static const std::vector<S> nums = {"1234567.25", "0.5", "-0.125", "1e3", "1234", "1.5e-7", "-98765.4321", "3", ".25", "7.", "1,5", "1.234,5", "1.234.567", "1 234", "12e", "+2.5E+2"};
  F.push_back({"all-numbers", 5 * nums.size() * NENV,
               [](uint64_t i, mc::Ctx &c) {
                 const Env &e = ENV[i % NENV];
                 i /= NENV;
                 auto m = doc::make_doc((int)(i / nums.size()), doc::SEM | doc::FMT, {});
                 replace_numbers(m.root, nums[i % nums.size()]);
                 doc::Chooser ch;
                 doc::Writer w(ch);
                 w.put(m.root, 0);
                 compare(c, e, w.out, "all numbers are " + nums[i % nums.size()]);
               },
               nullptr});
  F.push_back({"one-number", 90 * nums.size() * NENV,
               [](uint64_t i, mc::Ctx &c) {
                 const Env &e = ENV[i % NENV];
                 i /= NENV;
                 const S &v = nums[i % nums.size()];
                 int n = (int)(i / nums.size());
                 auto m = doc::make_doc(n % 2 ? 3 : 1, doc::SEM | doc::FMT, {});
                 n /= 2;
                 int at = n;
                 number_at(m.root, n, v);
                 if (n >= 0) {
                   c.skipped++;
                   return;
                 }
                 doc::Chooser ch;
                 doc::Writer w(ch);
                 w.put(m.root, 0);
                 compare(c, e, w.out, "number " + std::to_string(at) + " is " + v);
               },
               nullptr});
  F.push_back({"samples", 3 * NENV,
               [](uint64_t i, mc::Ctx &c) {
                 static const char *N[] = {"fetch", "pr2", "kuka"};
                 S p = S(getenv("MC_REPO") ? getenv("MC_REPO") : "/repo") + "/data/" + N[i / NENV] + ".urdf", t;
                 if (FILE *f = fopen(p.c_str(), "r")) {
                   char b[65536];
                   for (size_t k; (k = fread(b, 1, sizeof b, f)) > 0;)
                     t.append(b, k);
                   fclose(f);
                 }
                 if (t.empty())
                   throw std::runtime_error("no sample robot " + p);
                 compare(c, ENV[i % NENV], t, N[i / NENV]);
               },
               nullptr});
  F.push_back({"locales", 1, [](uint64_t, mc::Ctx &c) {
                 // the machinery itself: the locales are what they are called
                 for (const Env &e : ENV)
                   if (e.kind == 0) {
                     std::ostringstream o;
                     o.imbue(std::locale(std::locale::classic(), new Punct(e.dp, e.ts, e.gr)));
                     o << 1234567.5;
                     c.check("setup", o.str() != "1.23457e+06" || e.dp == '.', e.what);
                   }
                 if (!g_missing.empty())
                   printf("locales not available:%s\n", g_missing.c_str());
               },
               nullptr});
  return F;
}
int main(int argc, char **argv) {
  compile_locales();
  return mc::main_(argc, argv, make);
}
