// C12: invalid robot descriptions are rejected with an exception, valid ones accepted.
#include "doc.hpp"
#include "hist.hpp"
using namespace bind;
typedef std::vector<std::pair<int, int>> Dev;

// true: accepted, false: rejected by an exception; anything else kills the process and is
// attributed to the case by the driver
static bool accepted(mc::Ctx &c, const std::string &text) {
  c.step();
  c.state(mc::mixs(0, text));
  try {
    tinyfk::KinematicModel m(text);
    // an accepted model must be usable
    tinyfk::Transform t;
    for (size_t i = 0; i < m.links_.size(); i++)
      m.get_link_pose(i, t);
    return true;
  } catch (std::exception &) {
    return false;
  }
}
static void expect(mc::Ctx &c, const std::string &key, const std::string &text, bool valid, const std::string &what) {
  if (c.replay)
    printf("---- %s (%s)\n%s\n", what.c_str(), valid ? "valid" : "invalid", text.c_str());
  bool a = accepted(c, text);
  c.check(key, a == valid, what + (a ? " is accepted: " : " is rejected: ") + text.substr(0, 1500));
}

// ---- a list of invalid changes of a valid document ------------------------
struct Change {
  std::string what;
  std::function<void(doc::El &)> apply;
};
typedef std::vector<int> Path;
static doc::El &at(doc::El &r, const Path &p) {
  doc::El *e = &r;
  for (int i : p)
    e = &e->kids[i];
  return *e;
}
static void walk(doc::El &e, Path &p, const std::function<void(doc::El &, const Path &)> &f) {
  f(e, p);
  for (size_t i = 0; i < e.kids.size(); i++) {
    p.push_back((int)i);
    walk(e.kids[i], p, f);
    p.pop_back();
  }
}
static const std::vector<std::string> BADNUM = {"", " ", "abc", "1.0x", "x1", "1,5", "1 2", "1.5.5", "--1", "1e", "1.5f", "-", ".", "1.0.", "1;", "0 0 0", "one", "1-1"};
static const std::vector<std::string> BADVEC = {"", " ", "1 2", "1 2 3 4", "1 2 x", "x 2 3", "1,2,3", "1 2 3x", "a b c", "1", "1 2 3 x", "1 2,3", "1 2 3.3.3", "1 -- 3"};

static bool number_matters(const std::string &tag, const std::string &parent, bool movable) {
  if (parent == "visual" || parent == "collision" || parent == "geometry")
    return false; // shapes are outside the property
  if (tag == "axis")
    return movable;
  return true;
}
static std::vector<Change> changes(const doc::Made &m) {
  std::vector<Change> v;
  doc::El root = m.root;
  Path p0;
  auto add = [&](const std::string &w, const Path &p, std::function<void(doc::El &)> f) {
    v.push_back(Change{w, [=](doc::El &r) { f(at(r, p)); }});
  };
  auto drop_attr = [&](const Path &p, const std::string &tag, const std::string &a) {
    add("without " + a + " of " + tag, p, [=](doc::El &e) {
      e.attrs.erase(std::remove_if(e.attrs.begin(), e.attrs.end(), [&](const doc::Attr &x) { return x.name == a; }), e.attrs.end());
    });
  };
  auto drop_kid = [&](const Path &p, const std::string &tag, const std::string &k) {
    add("without " + k + " of " + tag, p, [=](doc::El &e) {
      e.kids.erase(std::remove_if(e.kids.begin(), e.kids.end(), [&](const doc::El &x) { return x.tag == k; }), e.kids.end());
    });
  };
  auto set_attr = [&](const Path &p, const std::string &tag, const std::string &a, const std::string &val) {
    add(a + " of " + tag + " = [" + val + "]", p, [=](doc::El &e) {
      for (auto &x : e.attrs)
        if (x.name == a)
          x.value = val, x.kind = doc::STR;
    });
  };
  walk(root, p0, [&](doc::El &e, const Path &p) {
    std::string par = p.empty() ? "" : at(root, Path(p.begin(), p.end() - 1)).tag;
    bool movable = true;
    std::string jt;
    if (e.tag == "joint" || par == "joint")
      for (auto &a : (e.tag == "joint" ? e : at(root, Path(p.begin(), p.end() - 1))).attrs)
        if (a.name == "type")
          jt = a.value, movable = a.value != "fixed";
    std::set<std::string> attrs, kids;
    for (auto &a : e.attrs)
      attrs.insert(a.name);
    for (auto &k : e.kids)
      kids.insert(k.tag);
    static const std::map<std::string, std::vector<std::string>> need_attr = {
        {"robot", {"name"}}, {"link", {"name"}}, {"joint", {"name", "type"}}, {"parent", {"link"}}, {"child", {"link"}},
        {"limit", {"effort", "velocity"}}, {"mass", {"value"}}, {"inertia", {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"}},
        {"mimic", {"joint"}}, {"safety_controller", {"k_velocity"}}};
    auto it = need_attr.find(e.tag);
    if (it != need_attr.end())
      for (auto &a : it->second)
        drop_attr(p, e.tag, a);
    if (e.tag == "joint") {
      drop_kid(p, e.tag, "parent");
      drop_kid(p, e.tag, "child");
      if (jt == "revolute" || jt == "prismatic")
        drop_kid(p, e.tag, "limit");
      for (auto t : {"", "Revolute", "revolute ", " revolute", "ball", "planar", "floating", "spherical", "fix", "continuouss", "0"})
        set_attr(p, e.tag, "type", t);
    }
    if (e.tag == "parent" || e.tag == "child")
      for (auto t : {"", "nope", "B", "b ", "aa", " a"})
        set_attr(p, e.tag, "link", t);
    if (e.tag == "inertial") {
      drop_kid(p, e.tag, "mass");
      drop_kid(p, e.tag, "inertia");
    }
    if (e.tag == "robot") {
      for (auto t : {"Robot", "model", "robots", "link"})
        add(std::string("root element ") + t, p, [=](doc::El &r) { r.tag = t; });
      add("nested robot", p, [](doc::El &r) {
        doc::El x("foo");
        x.k(r);
        r = x;
      });
      for (auto t : {"2.0", "1.1", "1", "1.0.0", "abc", "", "0.1", "1.", ".0", "1.0x", "-1.0"})
        add(std::string("version ") + t, p, [=](doc::El &r) { r.a("version", t); });
      drop_kid(p, e.tag, "link");
      for (size_t i = 0; i < e.kids.size(); i++) {
        add("duplicate " + e.kids[i].tag, p, [=](doc::El &r) { doc::El k = r.kids[i]; r.kids.push_back(k); });
        if (e.kids[i].tag == "link")
          for (size_t j = 0; j < e.kids.size(); j++)
            if (i != j && e.kids[j].tag == "link")
              add("two links of the same name", p, [=](doc::El &r) { r.kids[j].attrs[0] = r.kids[i].attrs[0]; });
        if (e.kids[i].tag == "joint")
          for (size_t j = 0; j < e.kids.size(); j++)
            if (i != j && e.kids[j].tag == "joint")
              add("two joints of the same name", p, [=](doc::El &r) { r.kids[j].attrs[0] = r.kids[i].attrs[0]; });
        add("bare link in front", p, [](doc::El &r) { r.kids.insert(r.kids.begin(), doc::El("link")); });
        add("bare joint in front", p, [](doc::El &r) { r.kids.insert(r.kids.begin(), doc::El("joint")); });
        add("second root", p, [](doc::El &r) { r.k(doc::El("link").a("name", "extra")); });
      }
    }
    for (size_t i = 0; i < e.attrs.size(); i++) {
      auto &a = e.attrs[i];
      if (a.kind != doc::STR && number_matters(e.tag, par, movable))
        for (auto &b : a.kind == doc::NUM ? BADNUM : BADVEC)
          set_attr(p, e.tag, a.name, b);
      add("attribute " + a.name + " of " + e.tag + " given twice", p, [=](doc::El &x) { doc::Attr y = x.attrs[i]; x.attrs.push_back(y); });
    }
  });
  return v;
}
static std::string write(const doc::El &r, doc::Chooser &ch) {
  doc::Writer w(ch);
  w.put(r, 0);
  return w.out + "\n";
}

static void add_changes(std::vector<mc::Family> &f, int base) {
  doc::Made m = doc::make_doc(base, doc::SEM, {});
  auto devs = doc::deviations(m.ch);
  // semantic deviation x invalid change (x formatting deviation)
  f.push_back({"invalid" + std::to_string(base), devs.size() + 1, [=](uint64_t i, mc::Ctx &c) {
                 doc::Made v = doc::make_doc(base, doc::SEM, i ? Dev{devs[i - 1]} : Dev{});
                 expect(c, "valid-rejected", v.text, true, "base " + std::to_string(base) + " [" + v.ch.describe() + "]");
                 for (auto &x : changes(v)) {
                   doc::El r = v.root;
                   x.apply(r);
                   doc::Chooser ch;
                   ch.mask = doc::FMT;
                   std::string what = "base " + std::to_string(base) + " [" + v.ch.describe() + "] " + x.what;
                   expect(c, "invalid-accepted", write(r, ch), false, what);
                 }
               },
               nullptr});
}

// invalid change x formatting deviation
static void add_fmt(std::vector<mc::Family> &f, int base) {
  doc::Made v = doc::make_doc(base, doc::SEM, {});
  auto ch = changes(v);
  f.push_back({"invalid-fmt" + std::to_string(base), ch.size(), [=](uint64_t i, mc::Ctx &c) {
                 doc::El r = v.root;
                 ch[i].apply(r);
                 doc::Chooser c0;
                 c0.mask = doc::FMT;
                 write(r, c0);
                 for (auto &d : doc::deviations(c0)) {
                   doc::Chooser c2;
                   c2.mask = doc::FMT;
                   c2.dev = {d};
                   std::string t = write(r, c2);
                   expect(c, "invalid-accepted", t, false, "base " + std::to_string(base) + " " + ch[i].what + " [" + c2.describe() + "]");
                 }
               },
               nullptr});
}

// every proper prefix, and every mismatch of tags
static void add_syntax(std::vector<mc::Family> &f, int base) {
  doc::Made m0 = doc::make_doc(base, doc::SEM | doc::FMT, {});
  auto devs = doc::deviations(m0.ch);
  f.push_back({"truncated" + std::to_string(base), devs.size() + 1, [=](uint64_t i, mc::Ctx &c) {
                 doc::Made v = doc::make_doc(base, doc::SEM | doc::FMT, i ? Dev{devs[i - 1]} : Dev{});
                 size_t end = v.text.rfind("</robot");
                 end = end == std::string::npos ? v.text.rfind("/>") + 1 : v.text.find('>', end);
                 std::string what = "base " + std::to_string(base) + " [" + v.ch.describe() + "]";
                 for (size_t k = 0; k <= end; k++) {
                   if (i && k % 7 != i % 7)
                     continue; // the plain document is cut everywhere, the others at every seventh byte
                   expect(c, "truncated-accepted", v.text.substr(0, k), false, what + " cut after " + std::to_string(k) + " bytes");
                 }
                 expect(c, "valid-rejected", v.text.substr(0, end + 1), true, what + " cut after the root element");
               },
               nullptr});
  f.push_back({"tags" + std::to_string(base), devs.size() + 1, [=](uint64_t i, mc::Ctx &c) {
                 doc::Made v = doc::make_doc(base, doc::SEM | doc::FMT, i ? Dev{devs[i - 1]} : Dev{});
                 std::string what = "base " + std::to_string(base) + " [" + v.ch.describe() + "]";
                 // positions of tags, outside comments
                 std::string s = v.text;
                 for (size_t k = 0; k < s.size();) {
                   if (s.compare(k, 4, "<!--") == 0) {
                     k = s.find("-->", k) + 3;
                     continue;
                   }
                   if (s[k] == '<' && s[k + 1] == '/') {
                     size_t e = s.find('>', k);
                     std::string tag = s.substr(k + 2, s.find_first_of(" >\t\r\n", k + 2) - k - 2);
                     expect(c, "mismatch-accepted", s.substr(0, k) + s.substr(e + 1), false, what + " without the end tag of " + tag);
                     for (auto t : {tag + "x", std::string("zz"), tag.substr(1)})
                       expect(c, "mismatch-accepted", s.substr(0, k) + "</" + t + ">" + s.substr(e + 1), false, what + " end tag of " + tag + " replaced by " + t);
                   } else if (s[k] == '<' && isalpha((unsigned char)s[k + 1])) {
                     size_t e = k;
                     char q = 0;
                     for (; e < s.size() && (q || s[e] != '>'); e++)
                       if (q)
                         q = s[e] == q ? 0 : q;
                       else if (s[e] == '"' || s[e] == '\'')
                         q = s[e];
                     std::string tag = s.substr(k + 1, s.find_first_of(" />\t\r\n", k + 1) - k - 1);
                     if (s[e - 1] == '/')
                       expect(c, "mismatch-accepted", s.substr(0, e - 1) + s.substr(e), false, what + " element " + tag + " left open");
                     else
                       expect(c, "mismatch-accepted", s.substr(0, e) + "/" + s.substr(e), false, what + " element " + tag + " closed twice");
                     k = e;
                   }
                   k++;
                 }
               },
               nullptr});
}

// all ways of connecting n links by m joints
static void add_graphs(std::vector<mc::Family> &f, int n, int m, bool undefined) {
  uint64_t per = mc::ipow(n + undefined, 2), N = mc::ipow(per, m);
  f.push_back({"graph-" + std::to_string(n) + "-" + std::to_string(m), N, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 std::vector<std::pair<int, int>> e;
                 for (int k = 0; k < m; k++) {
                   int a = (int)d.pick(n + undefined), b = (int)d.pick(n + undefined);
                   e.push_back({a, b});
                 }
                 static const char *nm[] = {"b", "d", "a", "c", "e", "f"};
                 static const char *types[] = {"revolute", "fixed", "continuous", "prismatic"};
                 auto name = [&](int k) { return k == n ? "nope" : nm[k]; };
                 bool ok = m == n - 1;
                 std::vector<int> par(n, -1);
                 for (auto &x : e) {
                   if (x.first == n || x.second == n) {
                     ok = false;
                     continue;
                   }
                   ok = ok && par[x.second] < 0 && x.first != x.second;
                   par[x.second] = x.first;
                 }
                 int roots = 0;
                 for (int k = 0; k < n && ok; k++) {
                   roots += par[k] < 0;
                   int h = k;
                   for (int s = 0; s <= n && h >= 0; s++)
                     h = par[h];
                   ok = ok && h < 0;
                 }
                 ok = ok && roots == 1;
                 std::string s = "<robot name=\"r\">";
                 for (int k = 0; k < n; k++)
                   s += std::string("<link name=\"") + nm[k] + "\"/>";
                 for (int k = 0; k < m; k++)
                   s += "<joint name=\"j" + std::to_string((k * 3 + (int)i) % 5) + std::to_string(k) + "\" type=\"" + types[(k + i) % 4] + "\"><parent link=\"" + name(e[k].first) + "\"/><child link=\"" +
                        name(e[k].second) + "\"/><limit effort=\"1\" velocity=\"1\"/></joint>";
                 expect(c, ok ? "valid-rejected" : "graph-accepted", s + "</robot>", ok, "graph");
               },
               nullptr});
}

// larger robots: every single fault of connection and naming at every place
struct Net {
  std::vector<std::string> link, joint; // names
  std::vector<int> par, chi, extra;     // of the joints; extra: what is wrong with one
  std::string text(int order) const {
    static const char *types[] = {"revolute", "fixed", "continuous", "prismatic"};
    auto L = [&](size_t k) { return link[k].empty() ? std::string() : "<link name=\"" + link[k] + "\"/>"; };
    auto name = [&](int k) { return k < 0 ? std::string("nope") : full[k]; };
    auto J = [&](size_t k) {
      if (joint[k].empty())
        return std::string();
      int x = extra[k];
      std::string t = x == 1 ? "hinge" : types[(k * 7 + 3) % 4];
      if (x >= 2)
        t = "revolute";
      return "<joint name=\"" + joint[k] + "\" type=\"" + t + "\">" + (x == 5 ? "" : "<parent link=\"" + name(par[k]) + "\"/>") + (x == 6 ? "" : "<child link=\"" + name(chi[k]) + "\"/>") +
             (x == 3 ? "<axis xyz=\"0 0 one\"/>" : x == 4 ? "<origin xyz=\"0 0\"/>" : "") + (x == 2 ? "" : "<limit effort=\"1\" velocity=\"1\"/>") + "</joint>";
    };
    std::string s = "<robot name=\"r\">";
    size_t n = link.size(), m = joint.size();
    if (order == 0) {
      for (size_t k = 0; k < n; k++)
        s += L(k);
      for (size_t k = 0; k < m; k++)
        s += J(k);
    } else if (order == 1) {
      for (size_t k = m; k-- > 0;)
        s += J(k);
      for (size_t k = n; k-- > 0;)
        s += L(k);
    } else
      for (size_t k = 0; k < std::max(n, m); k++) {
        if (k < n)
          s += L(k * 1 % n);
        if (k < m)
          s += J((k + m / 2) % m);
      }
    return s + "</robot>";
  }
  std::vector<std::string> full; // names of the links as the joints know them
};
static void add_big(std::vector<mc::Family> &f, int n, int stride, bool thin = false) {
  f.push_back({"big-" + std::to_string(n), 4ull * (thin ? 1 : 9) * (n - 1), [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int shape = d.pick(4), order = thin ? 0 : d.pick(3), naming = thin ? 0 : d.pick(3), k = (int)d.pick(n - 1);
                 if (thin) // order and naming go with the place
                   order = k % 3, naming = k / 3 % 3;
                 Net t;
                 auto nm = [&](char ch, int x) {
                   char b[64];
                   x = naming == 1 ? n - 1 - x : x;
                   snprintf(b, sizeof b, naming == 2 ? "%d%c" : naming == 1 ? "a_rather_long_common_prefix_%c_%d" : "%c%03d", naming == 2 ? x : ch, naming == 2 ? ch : x);
                   return std::string(b);
                 };
                 for (int x = 0; x < n; x++)
                   t.full.push_back(nm('l', x));
                 t.link = t.full;
                 for (int x = 1; x < n; x++) {
                   t.joint.push_back(nm('j', x));
                   t.chi.push_back(x);
                   t.par.push_back(shape == 0 ? x - 1 : shape == 1 ? 0 : shape == 2 ? (x - 1) / 2 : (x % 5 == 0 ? x - 5 : x - 1));
                   t.extra.push_back(0);
                 }
                 std::string what = "robot of " + std::to_string(n) + " links, shape " + std::to_string(shape) + ", joint " + std::to_string(k);
                 auto below = [&](int l, int top) { // is l the link top or below it
                   for (int h = l; h > 0; h = t.par[h - 1])
                     if (h == top)
                       return true;
                   return l == top;
                 };
                 if (k == 0)
                   expect(c, "valid-rejected", t.text(order), true, what);
                 Net u = t;
                 auto run = [&](const char *key, bool ok, const std::string &w) {
                   expect(c, ok ? "valid-rejected" : key, u.text(order), ok, what + w);
                   u = t;
                 };
                 for (int l = (int)(i % stride); l < n; l += stride) {
                   u.par[k] = l;
                   run("graph-accepted", !below(l, k + 1), " hangs at link " + std::to_string(l));
                   if (l != k + 1) {
                     u.chi[k] = l;
                     run("graph-accepted", false, " leads to link " + std::to_string(l));
                     u.link[k + 1] = u.link[l];
                     run("duplicate-accepted", false, " its link is called like " + std::to_string(l));
                     u.link[k + 1] = u.link[l];
                     u.full = u.link;
                     run("duplicate-accepted", false, " its link and its mentions are called like " + std::to_string(l));
                   }
                   if (l > 0 && l - 1 != k) {
                     u.joint[k] = u.joint[l - 1];
                     run("duplicate-accepted", false, " is called like joint " + std::to_string(l - 1));
                   }
                 }
                 u.link[k + 1].clear();
                 run("graph-accepted", false, " its link is missing");
                 u.joint[k].clear();
                 run("graph-accepted", false, " is missing");
                 u.par[k] = -1;
                 run("graph-accepted", false, " has an unknown parent");
                 u.chi[k] = -1;
                 run("graph-accepted", false, " has an unknown child");
                 for (int x = 1; x <= 6; x++) {
                   u.extra[k] = x;
                   run("invalid-accepted", false, " fault " + std::to_string(x));
                 }
                 u.link[k + 1] = "";
                 u.joint[k] = "";
                 bool leaf = true;
                 for (int x : t.par)
                   leaf = leaf && x != k + 1;
                 run("graph-accepted", leaf, " and its link are missing");
                 u.link.push_back("lonely");
                 run("graph-accepted", false, " a link is not connected");
                 u.link.push_back("one"), u.link.push_back("two"), u.full.push_back("one"), u.full.push_back("two");
                 u.joint.push_back("x1"), u.joint.push_back("x2");
                 u.par.push_back(n), u.par.push_back(n + 1), u.chi.push_back(n + 1), u.chi.push_back(n);
                 u.extra.push_back(0), u.extra.push_back(0);
                 run("graph-accepted", false, " two further links in a circle");
               },
               nullptr});
}

std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  for (int b = 0; b < doc::Gen::NBASE; b++) {
    add_changes(f, b);
    add_syntax(f, b);
    if (b <= 3 || thorough)
      add_fmt(f, b);
  }
  for (int m = 0; m <= 3; m++) {
    add_graphs(f, 1, m, true);
    add_graphs(f, 2, m, true);
    add_graphs(f, 3, m, true);
  }
  for (int m = 2; m <= 4; m++)
    add_graphs(f, 4, m, m < 4);
  if (thorough) {
    add_graphs(f, 5, 3, true);
    add_graphs(f, 5, 4, true);
    add_graphs(f, 3, 4, true);
  } else
    add_graphs(f, 5, 4, false);
  for (int n : {6, 9, 17, 33})
    add_big(f, n, 1);
  add_big(f, 70, thorough ? 1 : 7);
  add_big(f, 260, thorough ? 7 : 67, !thorough);
  static const std::vector<std::string> junk = {"", " ", "\n", "x", "<", ">", "<robot", "<robot>", "<robot/>", "<robot name=\"a\"/>", "<robot name=\"a\"></robot>", "<?xml version=\"1.0\"?>",
                                                "<!-- -->", "<!--", "</robot>", "robot", "<link name=\"a\"/>", "<robot name=\"a\"><link/></robot>", "<robot name=\"a\"><joint name=\"j\" type=\"fixed\"/></robot>",
                                                "<![CDATA[x]]>", "\xEF\xBB\xBF", "\xEF", "{}", "<html><robot name=\"a\"><link name=\"b\"/></robot></html>", "<robot name=\"a\"><!-- <link name=\"b\"/> --></robot>",
                                                "<robot name=\"a\"><group><link name=\"b\"/></group></robot>", "/no/such/file.urdf"};
  f.push_back({"junk", junk.size(), [=](uint64_t i, mc::Ctx &c) { expect(c, "junk-accepted", junk[i], false, "text"); }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
