// Robot descriptions with every way of writing them.
//
// generate() builds a description and its meaning at the same time. Wherever
// the author of a file has a choice (leave an optional part out, use another
// value, another order, another spelling) it asks a Chooser; choice 0 is the
// plain one. All documents with at most k deviations from the plain one are
// enumerated by the harnesses.
#pragma once
#include "bind.hpp"
#include <memory>
#include <tinyxml.h>

namespace doc {
using ref::A3;
using ref::LD;

enum { SEM = 1, FMT = 2, NUMS = 4 };
// values tried for every single number of a description (mask NUMS)
static const double NUMV[] = {0, -0.0, 1, -1, 2, 3.5, -3.5, 6.5, -6.5, 7, -9.5, 13, 100, -12345.678, 1e6, 3.14159265358979312, -3.14159265358979312,
                              6.28318530717958623, 1.57079632679489656, -1.57079632679489656, 4.71238898038468967, 1e-3, -2.5e-7, 1e-12, 0.1, 1.0 / 3, -2.0 / 3,
                              123456789.125, 9007199254740993.0, 0.99999999999999989, 1.0000000000000002, 255, 256, 65536, 1e-300, 0.5, 1e19};
enum { NNUMV = sizeof NUMV / sizeof *NUMV };
struct Chooser {
  int mask = SEM | FMT;
  std::vector<std::pair<int, int>> dev; // (site, option)
  std::vector<int> sizes, kinds;
  std::vector<std::string> names;
  int operator()(int kind, const char *name, int n) {
    if (!(kind & mask))
      return 0;
    int idx = (int)sizes.size();
    sizes.push_back(n);
    kinds.push_back(kind);
    names.push_back(name);
    for (auto &d : dev)
      if (d.first == idx)
        return d.second;
    return 0;
  }
  std::string describe() const {
    std::string s;
    for (auto &d : dev)
      s += (s.empty() ? "" : ", ") + std::string(d.first < (int)names.size() ? names[d.first] : "?") + "#" + std::to_string(d.first) + "=" + std::to_string(d.second);
    return s;
  }
};

struct Geo {
  int kind = 0; // sphere box cylinder mesh
  A3 d{{0.5, 0.25, 2}};
  std::string file = "package://a/b.dae";
  bool scale = false;
};
struct Vis {
  A3 xyz{{0, 0, 0}}, rpy{{0, 0, 0}};
  Geo g;
};
struct DLink {
  std::string name;
  bool inertial = false;
  A3 ixyz{{0, 0, 0}}, irpy{{0, 0, 0}};
  double mass = 0, I[6] = {0, 0, 0, 0, 0, 0};
  std::vector<Vis> vis, col;
};
enum { T_REV, T_CONT, T_PRIS, T_FIX };
struct DJoint {
  std::string name;
  int type = T_REV;
  int parent = 0, child = 1;
  A3 xyz{{0, 0, 0}}, rpy{{0, 0, 0}}, axis{{1, 0, 0}};
  bool limits = false;
  double lower = 0, upper = 0, effort = 0, vel = 0;
  bool safety = false;
  double klo = 0, kup = 0, kp = 0, kv = 0;
  bool calib = false, has_rising = false, has_falling = false;
  double rising = 0, falling = 0;
  bool mimic = false;
  std::string mj;
  double mult = 1, off = 0;
  bool dyn = false;
  double damp = 0, fric = 0;
};
struct Doc {
  std::string name;
  std::vector<DLink> links;
  std::vector<DJoint> joints;
};

// ---- document tree -------------------------------------------------------
enum { STR, NUM, VEC };
struct Attr {
  std::string name, value; // value in canonical form, not escaped
  int kind;
};
struct El {
  std::string tag;
  std::vector<Attr> attrs;
  std::vector<El> kids;
  bool plain = false; // no unknown elements in front of the children
  explicit El(const std::string &t = "") : tag(t) {}
  El &a(const std::string &n, const std::string &v) {
    attrs.push_back(Attr{n, v, STR});
    return *this;
  }
  El &n(const std::string &nm, double v) {
    attrs.push_back(Attr{nm, num(v), NUM});
    return *this;
  }
  El &v(const std::string &nm, const A3 &x) {
    attrs.push_back(Attr{nm, num(x[0]) + " " + num(x[1]) + " " + num(x[2]), VEC});
    return *this;
  }
  El &k(const El &e) {
    kids.push_back(e);
    return *this;
  }
  static std::string num(double v) { // shortest text that reads back exactly
    char b[40];
    for (int p = 1; p < 18; p++) {
      snprintf(b, sizeof b, "%.*g", p, v);
      if (strtod(b, nullptr) == v)
        break;
    }
    return b;
  }
};

template <class T> void reorder(std::vector<T> &v, int how) { // 0 as is, 1 reversed, 2 rotated
  if (how == 1)
    std::reverse(v.begin(), v.end());
  if (how == 2 && v.size() > 1)
    std::rotate(v.begin(), v.begin() + 1, v.end());
}

// equivalent spellings of a decimal number
static const int NSPELL = 9;
inline std::string spell(const std::string &s, int o) {
  bool neg = s[0] == '-';
  std::string m = neg ? s.substr(1) : s, e;
  size_t p = m.find_first_of("eE");
  if (p != std::string::npos) {
    e = m.substr(p + 1);
    m = m.substr(0, p);
  }
  int ex = e.empty() ? 0 : atoi(e.c_str());
  auto sg = [&](const std::string &x) { return (neg ? "-" : "") + x; };
  auto es = [&](int k) { return "e" + std::to_string(k); };
  bool dot = m.find('.') != std::string::npos;
  switch (o) {
  case 1:
    return neg ? s : "+" + s;
  case 2:
    return sg((dot ? m + "00" : m + ".00") + (ex ? es(ex) : ""));
  case 3:
    return sg("00" + m + (ex ? es(ex) : ""));
  case 4:
    return sg(m + (ex < 0 ? "E-" : "E+") + std::to_string(std::abs(ex)));
  case 5: { // shift the point to the right end
    size_t d = m.find('.');
    if (d == std::string::npos)
      return sg(m + "0" + es(ex - 1));
    int k = (int)(m.size() - d - 1);
    std::string x = m.substr(0, d) + m.substr(d + 1);
    return sg(x + es(ex - k));
  }
  case 6: { // all digits behind the point
    size_t d = m.find('.');
    std::string x = d == std::string::npos ? m : m.substr(0, d) + m.substr(d + 1);
    int k = (int)(d == std::string::npos ? m.size() : d);
    return sg("." + x + es(ex + k));
  }
  case 7: // white space around
    return " " + s + "\n";
  case 8:
    return "\t" + s + " ";
  }
  return s;
}
inline std::string esc(const std::string &s, char q) {
  std::string o;
  for (char c : s) {
    if (c == '&')
      o += "&amp;";
    else if (c == '<')
      o += "&lt;";
    else if (c == '>')
      o += "&gt;";
    else if (c == q)
      o += q == '"' ? "&quot;" : "&apos;";
    else
      o += c;
  }
  return o;
}
inline std::string charref(const std::string &s, int how) { // UTF-8 aware
  std::string o;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    unsigned cp = n == 1 ? c : c & (0xFF >> (n + 1));
    for (int k = 1; k < n; k++)
      cp = cp << 6 | ((unsigned char)s[i + k] & 0x3F);
    char b[24];
    bool lit = how == 2 && i > 0 && n == 1 && isalnum(c);
    if (lit)
      snprintf(b, sizeof b, "%c", c);
    else
      snprintf(b, sizeof b, how == 0 ? "&#%u;" : how == 1 ? "&#x%x;" : "&#x0%X;", cp);
    o += b;
    i += n;
  }
  return o;
}

struct Writer {
  Chooser &ch;
  std::string out;
  static const int NSEP = 13;
  explicit Writer(Chooser &c) : ch(c) {}
  std::string sep(bool plain, int depth, const std::string &next) {
    switch (ch(FMT, "gap", plain ? 8 : NSEP)) {
    case 0:
      return "\n" + std::string(2 * depth, ' ');
    case 1:
      return "";
    case 2:
      return "\t \t";
    case 3:
      return "\r\n";
    case 4:
      return "<!-- a <b> comment: link=\"x\" - > -->";
    case 5:
      return "\n<!--<link name=\"zz\"/><limit lower=\"9\"/>-->\n<!---->\n";
    case 6: // looks like what comes next
      return "<!--" + next + "-->";
    case 7:
      return next;
    case 9:
      return "<" + next + "x xyz=\"9 9 9\" value=\"9\" lower=\"9\" link=\"zz\" name=\"zz\"/>";
    case 10:
      return "<x:" + next + " xyz=\"9 9 9\" value=\"9\"><" + next + " xyz=\"8 8 8\" value=\"9\" link=\"zz\" name=\"zz\"/></x:" + next + ">";
    case 11:
      return "<?" + next + " xyz=\"9 9 9\"?>";
    case 8:
      return "<gazebo reference=\"a\"><link name=\"zz\"/><origin xyz=\"9 9 9\"/></gazebo>";
    default:
      return "\n<transmission name=\"t\"/>\n";
    }
  }
  std::string value(const Attr &a, char q) {
    if (a.kind == STR) {
      int o = ch(FMT, "string", 4);
      return o == 0 ? esc(a.value, q) : charref(a.value, o - 1);
    }
    if (a.kind == NUM) {
      int o = ch(FMT, "number", NSPELL + 1);
      return o == NSPELL ? charref(a.value, 1) : spell(a.value, o);
    }
    int o = ch(FMT, "vector", 10 + 6);
    std::vector<std::string> p;
    std::stringstream ss(a.value);
    for (std::string w; ss >> w;)
      p.push_back(w);
    if (o >= 10) {
      for (auto &w : p)
        w = spell(w, o - 9);
      o = 0;
    }
    const char *sp = o == 1 ? "  " : o == 2 ? "\t" : o == 3 ? "\n" : o == 4 ? "\r\n" : o == 5 ? " \n\t " : " ";
    std::string s = p[0];
    for (size_t i = 1; i < p.size(); i++)
      s += sp + p[i];
    if (o == 6)
      s = " " + s;
    if (o == 7)
      s += " ";
    if (o == 8)
      s = "\n\t" + s + "\n";
    if (o == 9) {
      std::string t;
      for (char c : s)
        t += c == ' ' ? std::string("&#32;") : std::string(1, c);
      s = t;
    }
    return s;
  }
  void put(const El &e, int depth) {
    out += "<" + e.tag;
    std::vector<Attr> as = e.attrs;
    if (as.size() > 1)
      reorder(as, ch(FMT, "attribute order", as.size() > 2 ? 3 : 2));
    int unk = as.empty() ? 0 : ch(FMT, "unknown attribute", 3);
    if (unk == 1)
      as.insert(as.begin(), Attr{"foo", "9 9 9", STR});
    if (unk == 2)
      as.push_back(Attr{"xml:x-y.z", "names", STR});
    int as_sep = as.empty() ? 0 : ch(FMT, "attribute gap", 4);
    for (auto &a : as) {
      out += as_sep == 0 ? " " : as_sep == 1 ? "\n" : as_sep == 2 ? "\t  " : "\r\n  ";
      out += a.name;
      bool known = a.name != "foo" && a.name != "xml:x-y.z";
      int eq = known ? ch(FMT, "equals", 4) : 0;
      out += eq == 0 ? "=" : eq == 1 ? " = " : eq == 2 ? "=\n" : "\t=";
      char q = known && ch(FMT, "quote", 2) ? '\'' : '"';
      out += q + (known ? value(a, q) : a.value) + q;
    }
    if (e.kids.empty()) {
      switch (ch(FMT, "end", 6)) {
      case 0:
        out += "/>";
        break;
      case 1:
        out += " />";
        break;
      case 2:
        out += "></" + e.tag + ">";
        break;
      case 3:
        out += ">\n\t</" + e.tag + ">";
        break;
      case 4:
        out += "></" + e.tag + " >";
        break;
      default:
        out += "\n><!-- x --></" + e.tag + "\n>";
      }
      return;
    }
    out += ">";
    for (auto &k : e.kids) {
      out += sep(e.plain, depth + 1, k.tag);
      put(k, depth + 1);
    }
    switch (ch(FMT, "close", 4)) {
    case 0:
      out += "\n" + std::string(2 * depth, ' ') + "</" + e.tag + ">";
      break;
    case 1:
      out += "</" + e.tag + ">";
      break;
    case 2:
      out += "<!-- x --></" + e.tag + " >";
      break;
    default:
      out += "\r\n</" + e.tag + "\n>";
    }
  }
};

// ---- the generator -------------------------------------------------------
struct Gen {
  Chooser &ch;
  int base;
  Doc d;
  El root{"robot"};
  Gen(Chooser &c, int b) : ch(c), base(b) { build(); }
  static const int NBASE = 5;

  double val(const char *what, double dflt) {
    static const double alt[] = {0, -1, 0.1, 1e-3, 123.456, -2.5e-7};
    int o = ch(SEM, what, 7);
    return one(what, o == 0 ? dflt : alt[o - 1]);
  }
  double one(const char *what, double dflt) {
    int o = ch(NUMS, what, NNUMV + 1);
    return o == 0 ? dflt : NUMV[o - 1];
  }
  A3 all(const char *what, A3 v) {
    for (double &x : v)
      x = one(what, x);
    return v;
  }
  std::string nm(const char *what, const std::string &dflt) {
    switch (ch(SEM, what, 5)) {
    case 1:
      return dflt + "/x&y<z>\"q\"'p'";
    case 2:
      return dflt + " with  blanks";
    case 3:
      return "\xC3\xA9\xE2\x82\xAC" + dflt;
    case 4:
      return "9.-_:" + dflt + "&amp;";
    }
    return dflt;
  }
  El origin(A3 &xyz, A3 &rpy, bool &present) {
    El o("origin");
    present = true;
    static const A3 X{{0.25, -1.5, 3}}, R{{0.5, -0.25, 1.125}};
    switch (ch(SEM, "origin", 6)) {
    case 0:
      xyz = all("xyz", X), rpy = all("rpy", R);
      return o.v("xyz", xyz).v("rpy", rpy);
    case 1:
      present = false;
      return o;
    case 2:
      xyz = X;
      return o.v("xyz", xyz);
    case 3:
      rpy = R;
      return o.v("rpy", rpy);
    case 4:
      return o;
    default:
      xyz = A3{{0, 1e-5, 12345.675}}, rpy = A3{{3.14159265359, 0, -1.57079632679}};
      return o.v("xyz", xyz).v("rpy", rpy);
    }
  }
  El geometry(Geo &g, int kind) {
    El e("geometry");
    e.plain = true;
    g.kind = kind;
    if (kind == 0)
      return e.k(El("sphere").n("radius", g.d[0] = val("radius", 0.5)));
    if (kind == 1)
      return e.k(El("box").v("size", g.d = all("size", g.d)));
    if (kind == 2) {
      g.d[0] = val("radius", 0.5);
      g.d[1] = val("length", 0.25);
      return e.k(El("cylinder").n("radius", g.d[0]).n("length", g.d[1]));
    }
    g.file = nm("mesh file", "package://a/b.dae");
    El m("mesh");
    m.a("filename", g.file);
    g.d = A3{{1, 1, 1}};
    if (ch(SEM, "scale", 2) || ch(NUMS, "scale", 2))
      m.v("scale", g.d = all("scale", A3{{0.5, 2, 0.001}}));
    return e.k(m);
  }
  void shapes(El &link, std::vector<Vis> &v, const char *tag, int dflt) {
    int o = (ch(SEM, tag, 6) + dflt) % 6; // none sphere box cylinder mesh two
    if (o == 0)
      return;
    int n = o == 5 ? 2 : 1;
    for (int i = 0; i < n; i++) {
      Vis x;
      El e(tag);
      bool pr;
      El og = origin(x.xyz, x.rpy, pr);
      if (pr)
        e.k(og);
      e.k(geometry(x.g, o == 5 ? (i ? 2 : 1) : o - 1));
      v.push_back(x);
      link.k(e);
    }
  }
  El link(const std::string &name, bool rich) {
    DLink l;
    l.name = nm("link name", name);
    El e("link");
    e.a("name", l.name);
    int in = ch(SEM, "inertial", 2);
    l.inertial = rich ? in == 0 : in == 1;
    if (l.inertial) {
      El i("inertial");
      bool pr;
      El og = origin(l.ixyz, l.irpy, pr);
      if (pr)
        i.k(og);
      l.mass = val("mass", 1.5);
      static const double dflt[6] = {1, 0.125, -0.25, 2, 0.375, 3};
      static const char *n[6] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
      El t("inertia");
      int k = ch(SEM, "inertia", 3);
      for (int q = 0; q < 6; q++) {
        l.I[q] = k == 0 ? dflt[q] : k == 1 ? 0.001 * (q + 1) : (q == 0 || q == 3 || q == 5);
        l.I[q] = one("inertia", l.I[q]);
        t.n(n[q], l.I[q]);
      }
      i.k(El("mass").n("value", l.mass)).k(t);
      reorder(i.kids, ch(FMT, "inertial order", 3));
      e.k(i);
    }
    shapes(e, l.vis, "visual", rich ? 1 : 0);
    shapes(e, l.col, "collision", rich ? 4 : 0);
    if (e.kids.size() > 1)
      reorder_shapes(e, l);
    d.links.push_back(l);
    return e;
  }
  void reorder_shapes(El &e, DLink &l) { // keeps the order within a kind
    int o = ch(FMT, "link order", 3);
    if (o == 1)
      std::stable_sort(e.kids.begin(), e.kids.end(), [](const El &a, const El &b) { return a.tag < b.tag; });
    if (o == 2)
      std::stable_sort(e.kids.begin(), e.kids.end(), [](const El &a, const El &b) { return a.tag > b.tag; });
    (void)l;
  }
  El joint(const std::string &name, int type, int parent, int child, bool rich) {
    DJoint j;
    j.name = nm("joint name", name);
    j.parent = parent;
    j.child = child;
    j.type = (ch(SEM, "type", 4) + type) % 4;
    static const char *tn[] = {"revolute", "continuous", "prismatic", "fixed"};
    El e("joint");
    e.a("name", j.name).a("type", tn[j.type]);
    bool pr;
    El og = origin(j.xyz, j.rpy, pr);
    if (pr)
      e.k(og);
    e.k(El("parent").a("link", d.links[parent].name)).k(El("child").a("link", d.links[child].name));
    static const A3 AX[] = {{{0, 0, 1}}, {{0, -1, 0}}, {{-1, 0, 0}}, {{0.6, 0, -0.8}}};
    int ax = ch(SEM, "axis", 5);
    if (j.type == T_FIX) {
      j.axis = A3{{0, 0, 0}}; // meaningless
      if (ax)
        e.k(El("axis").v("xyz", AX[ax - 1]));
    } else if (ax == 1)
      j.axis = A3{{1, 0, 0}};
    else
      e.k(El("axis").v("xyz", j.axis = all("axis", ax == 0 ? AX[0] : AX[ax - 1])));
    int li = ch(SEM, "limit", 5);
    bool must = j.type == T_REV || j.type == T_PRIS;
    // all four; without lower; without upper; neither; all absent where allowed
    if (must ? true : (li != 0)) {
      int k = li % 4;
      j.limits = true;
      El l("limit");
      if (k != 1 && k != 3)
        l.n("lower", j.lower = val("lower", -1.25));
      if (k != 2 && k != 3)
        l.n("upper", j.upper = val("upper", 2.75));
      l.n("effort", j.effort = val("effort", 30)).n("velocity", j.vel = val("velocity", 0.5));
      e.k(l);
    }
    int sa = ch(SEM, "safety", 3);
    if (rich ? sa != 1 : sa != 0) {
      j.safety = true;
      El s("safety_controller");
      if (sa != 2) {
        s.n("soft_lower_limit", j.klo = one("klo", -0.75)).n("soft_upper_limit", j.kup = one("kup", 0.625)).n("k_position", j.kp = one("kp", 15));
      }
      s.n("k_velocity", j.kv = one("kv", 10));
      e.k(s);
    }
    int ca = ch(SEM, "calibration", 4);
    ca = rich ? (ca + 3) % 4 : ca;
    if (ca) {
      j.calib = true;
      El c("calibration");
      if (ca & 1) {
        j.has_rising = true;
        c.n("rising", j.rising = one("rising", 0.375));
      }
      if (ca & 2) {
        j.has_falling = true;
        c.n("falling", j.falling = one("falling", -0.5));
      }
      e.k(c);
    }
    int mi = ch(SEM, "mimic", 4);
    mi = rich ? (mi + 3) % 4 : mi;
    if (mi) {
      j.mimic = true;
      j.mj = nm("mimic joint", "jx");
      El m("mimic");
      m.a("joint", j.mj);
      if (mi != 1)
        m.n("multiplier", j.mult = one("mult", -2.5));
      if (mi == 3)
        m.n("offset", j.off = one("off", 0.125));
      e.k(m);
    }
    int dy = ch(SEM, "dynamics", 4);
    dy = rich ? (dy + 3) % 4 : dy;
    if (dy) {
      j.dyn = true;
      El y("dynamics");
      if (dy & 1)
        y.n("damping", j.damp = one("damp", 0.75));
      if (dy & 2)
        y.n("friction", j.fric = one("fric", 0.0625));
      e.k(y);
    }
    reorder(e.kids, ch(FMT, "joint order", 3));
    d.joints.push_back(j);
    return e;
  }
  void build() {
    d.name = nm("robot name", "rob");
    root.a("name", d.name);
    if (ch(SEM, "version", 2))
      root.a("version", "1.0");
    std::vector<El> L, J;
    auto L1 = [&](const char *n, bool rich) { L.push_back(link(n, rich)); };
    auto J1 = [&](const char *n, int t, int p, int c, bool rich) { J.push_back(joint(n, t, p, c, rich)); };
    switch (base) {
    case 0:
      L1("b", false);
      break;
    case 1:
      L1("b", false), L1("a", false);
      J1("j", T_REV, 0, 1, false);
      break;
    case 2:
      L1("a", true), L1("b", false);
      J1("j", T_REV, 0, 1, true);
      break;
    case 3:
      L1("m", false), L1("z", true), L1("a", false);
      J1("j2", T_CONT, 0, 1, false), J1("j1", T_PRIS, 1, 2, false);
      break;
    default:
      L1("d", true), L1("c", false), L1("b", true), L1("a", false);
      J1("k", T_FIX, 0, 1, false), J1("j", T_REV, 1, 2, true), J1("i", T_PRIS, 0, 3, false);
    }
    int o = ch(FMT, "document order", 5);
    if (o == 1)
      reorder(L, 1), reorder(J, 1);
    if (o == 2 || o == 4)
      std::swap(L, J);
    if (o == 4)
      reorder(L, 1), reorder(J, 1);
    if (o == 3) { // interleaved
      size_t n = std::max(L.size(), J.size());
      for (size_t i = 0; i < n; i++) {
        if (i < J.size())
          root.k(J[i]);
        if (i < L.size())
          root.k(L[i]);
      }
    } else {
      for (auto &x : L)
        root.k(x);
      for (auto &x : J)
        root.k(x);
    }
  }
  std::string text() {
    Writer w(ch);
    switch (ch(FMT, "prolog", 8)) {
    case 0:
      w.out = "<?xml version=\"1.0\"?>\n";
      break;
    case 2:
      w.out = "<?xml version='1.0' encoding=\"UTF-8\" standalone=\"yes\" ?>\r\n";
      break;
    case 3:
      w.out = "\xEF\xBB\xBF<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
      break;
    case 4:
      w.out = "<?xml version=\"1.0\"?>\n<!-- <robot name=\"no\"/> -->\n";
      break;
    case 5:
      w.out = "\n\n  ";
      break;
    case 6:
      w.out = "<?xml version=\"1.0\"?><!DOCTYPE robot>\n";
      break;
    case 7:
      w.out = "<?xml version=\"1.0\"?>\n<?xml-model href=\"x\"?>\n";
      break;
    }
    w.put(root, 0);
    switch (ch(FMT, "epilog", 4)) {
    case 0:
      w.out += "\n";
      break;
    case 2:
      w.out += "\n<!-- end -->\n";
      break;
    case 3:
      w.out += "  \r\n\n";
      break;
    }
    return w.out;
  }
};

// all (site, option) pairs beyond what is already deviated
inline std::vector<std::pair<int, int>> deviations(const Chooser &ch, int from = 0) {
  std::vector<std::pair<int, int>> v;
  for (int i = from; i < (int)ch.sizes.size(); i++)
    for (int o = 1; o < ch.sizes[i]; o++)
      v.push_back({i, o});
  return v;
}
struct Made {
  Doc d;
  El root;
  std::string text;
  Chooser ch;
};
inline Made make_doc(int base, int mask, const std::vector<std::pair<int, int>> &dev) {
  Made m;
  m.ch.mask = mask;
  m.ch.dev = dev;
  Gen g(m.ch, base);
  m.text = g.text();
  m.d = g.d;
  m.root = g.root;
  return m;
}

// ---- comparison with what the parser made of it ---------------------------
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * (std::fabs(b) + (tol > 0 ? 1e-300 : 0)) || a == b; }

struct Cmp {
  mc::Ctx &c;
  std::string key, where;
  double tol; // relative; 0 means exactly
  bool ok = true;
  void num(const std::string &what, double got, double want) {
    c.comparisons++;
    if (!near(got, want, tol)) {
      char b[100];
      snprintf(b, sizeof b, " is %.17g, stated %.17g", got, want);
      c.fail(key, where + ": " + what + b);
      ok = false;
    }
  }
  void txt(const std::string &what, const std::string &got, const std::string &want) { ok &= c.eq(key, got, want, where + ": " + what); }
  void yes(const std::string &what, bool b) { ok &= c.check(key, b, where + ": " + what); }
  void vec(const std::string &what, const urdf::Vector3 &v, const A3 &w) {
    num(what + ".x", v.x, w[0]);
    num(what + ".y", v.y, w[1]);
    num(what + ".z", v.z, w[2]);
  }
  void pose(const std::string &what, const urdf::Pose &p, const A3 &xyz, const A3 &rpy) {
    vec(what + " position", p.position, xyz);
    auto R = ref::quat(p.rotation.x, p.rotation.y, p.rotation.z, p.rotation.w);
    auto W = ref::rpy<LD>(rpy[0], rpy[1], rpy[2]);
    LD n = p.rotation.x * p.rotation.x + p.rotation.y * p.rotation.y + p.rotation.z * p.rotation.z + p.rotation.w * p.rotation.w;
    c.comparisons++;
    LD df = ref::mdiff(R, W);
    if (!(df <= (tol > 0 ? 20 * tol : 1e-12)) || !(fabsl(n - 1) < 1e-12)) {
      char b[80];
      snprintf(b, sizeof b, " rotation differs by %.3Lg", df);
      c.fail(key, where + ": " + what + b);
      ok = false;
    }
  }
  void geo(const std::string &what, const urdf::GeometrySharedPtr &g, const Geo &w) {
    if (!g) {
      yes(what + " geometry missing", false);
      return;
    }
    static const int ty[] = {urdf::Geometry::SPHERE, urdf::Geometry::BOX, urdf::Geometry::CYLINDER, urdf::Geometry::MESH};
    if (g->type != ty[w.kind]) {
      yes(what + " geometry type", false);
      return;
    }
    if (w.kind == 0)
      num(what + " radius", static_cast<urdf::Sphere &>(*g).radius, w.d[0]);
    else if (w.kind == 1)
      vec(what + " size", static_cast<urdf::Box &>(*g).dim, w.d);
    else if (w.kind == 2) {
      num(what + " radius", static_cast<urdf::Cylinder &>(*g).radius, w.d[0]);
      num(what + " length", static_cast<urdf::Cylinder &>(*g).length, w.d[1]);
    } else {
      txt(what + " file", static_cast<urdf::Mesh &>(*g).filename, w.file);
      vec(what + " scale", static_cast<urdf::Mesh &>(*g).scale, w.d);
    }
  }
};

// origin_moved: KinematicModel moves the inertial origin into the helper link
inline bool cmp_model(mc::Ctx &c, const std::string &key, const urdf::ModelInterface &m, const Doc &d, const std::string &where, double tol = 0) {
  Cmp k{c, key, where, tol};
  k.txt("robot name", m.getName(), d.name);
  k.yes("number of links " + std::to_string(m.links_.size()), m.links_.size() == d.links.size());
  k.yes("number of joints " + std::to_string(m.joints_.size()), m.joints_.size() == d.joints.size());
  std::vector<int> pj(d.links.size(), -1);
  for (size_t j = 0; j < d.joints.size(); j++)
    pj[d.joints[j].child] = (int)j;
  for (size_t i = 0; i < d.links.size(); i++) {
    const DLink &w = d.links[i];
    auto it = m.links_.find(w.name);
    if (it == m.links_.end() || !it->second) {
      k.yes("link " + w.name + " missing", false);
      continue;
    }
    const urdf::Link &l = *it->second;
    std::string t = "link " + w.name;
    k.txt(t + " name", l.name, w.name);
    if (pj[i] < 0) {
      k.yes(t + " is the root", m.getRoot() && m.getRoot()->name == w.name && !l.getParent() && !l.parent_joint);
    } else {
      k.yes(t + " has a parent", l.getParent() && l.parent_joint);
      if (l.getParent())
        k.txt(t + " parent", l.getParent()->name, d.links[d.joints[pj[i]].parent].name);
      if (l.parent_joint)
        k.txt(t + " parent joint", l.parent_joint->name, d.joints[pj[i]].name);
    }
    std::multiset<std::string> cl, cj, wl, wj;
    for (auto &x : l.child_links)
      cl.insert(x->name);
    for (auto &x : l.child_joints)
      cj.insert(x->name);
    for (auto &j : d.joints)
      if (j.parent == (int)i)
        wl.insert(d.links[j.child].name), wj.insert(j.name);
    k.yes(t + " children", cl == wl && cj == wj);
    k.yes(t + " inertial present", (l.inertial != nullptr) == w.inertial);
    if (l.inertial && w.inertial) {
      k.num(t + " mass", l.inertial->mass, w.mass);
      double I[6] = {l.inertial->ixx, l.inertial->ixy, l.inertial->ixz, l.inertial->iyy, l.inertial->iyz, l.inertial->izz};
      for (int q = 0; q < 6; q++)
        k.num(t + " inertia " + std::to_string(q), I[q], w.I[q]);
      k.pose(t + " inertial origin", l.inertial->origin, w.ixyz, w.irpy);
    }
    auto shp = [&](const char *what, const std::vector<Vis> &ww, size_t n, std::function<const urdf::Pose &(size_t)> o, std::function<urdf::GeometrySharedPtr(size_t)> g) {
      if (n != ww.size()) {
        k.yes(t + " number of " + what, false);
        return;
      }
      for (size_t q = 0; q < n; q++) {
        k.pose(t + " " + what, o(q), ww[q].xyz, ww[q].rpy);
        k.geo(t + " " + what, g(q), ww[q].g);
      }
    };
    shp("visual", w.vis, l.visual_array.size(), [&](size_t q) -> const urdf::Pose & { return l.visual_array[q]->origin; }, [&](size_t q) { return l.visual_array[q]->geometry; });
    shp("collision", w.col, l.collision_array.size(), [&](size_t q) -> const urdf::Pose & { return l.collision_array[q]->origin; }, [&](size_t q) { return l.collision_array[q]->geometry; });
    k.yes(t + " first visual", w.vis.empty() ? !l.visual : (l.visual && l.visual == l.visual_array[0]));
    k.yes(t + " first collision", w.col.empty() ? !l.collision : (l.collision && l.collision == l.collision_array[0]));
  }
  for (auto &w : d.joints) {
    auto it = m.joints_.find(w.name);
    if (it == m.joints_.end() || !it->second) {
      k.yes("joint " + w.name + " missing", false);
      continue;
    }
    const urdf::Joint &j = *it->second;
    std::string t = "joint " + w.name;
    static const int ty[] = {urdf::Joint::REVOLUTE, urdf::Joint::CONTINUOUS, urdf::Joint::PRISMATIC, urdf::Joint::FIXED};
    k.txt(t + " name", j.name, w.name);
    k.yes(t + " type", j.type == ty[w.type]);
    k.txt(t + " parent", j.parent_link_name, d.links[w.parent].name);
    k.txt(t + " child", j.child_link_name, d.links[w.child].name);
    k.pose(t + " origin", j.parent_to_joint_origin_transform, w.xyz, w.rpy);
    if (w.type != T_FIX)
      k.vec(t + " axis", j.axis, w.axis);
    k.yes(t + " limit present", (j.limits != nullptr) == w.limits);
    if (j.limits && w.limits) {
      k.num(t + " lower", j.limits->lower, w.lower);
      k.num(t + " upper", j.limits->upper, w.upper);
      k.num(t + " effort", j.limits->effort, w.effort);
      k.num(t + " velocity", j.limits->velocity, w.vel);
    }
    k.yes(t + " safety present", (j.safety != nullptr) == w.safety);
    if (j.safety && w.safety) {
      k.num(t + " soft_lower", j.safety->soft_lower_limit, w.klo);
      k.num(t + " soft_upper", j.safety->soft_upper_limit, w.kup);
      k.num(t + " k_position", j.safety->k_position, w.kp);
      k.num(t + " k_velocity", j.safety->k_velocity, w.kv);
    }
    k.yes(t + " calibration present", (j.calibration != nullptr) == w.calib);
    if (j.calibration && w.calib) {
      k.yes(t + " rising present", (j.calibration->rising != nullptr) == w.has_rising);
      k.yes(t + " falling present", (j.calibration->falling != nullptr) == w.has_falling);
      if (j.calibration->rising && w.has_rising)
        k.num(t + " rising", *j.calibration->rising, w.rising);
      if (j.calibration->falling && w.has_falling)
        k.num(t + " falling", *j.calibration->falling, w.falling);
    }
    k.yes(t + " mimic present", (j.mimic != nullptr) == w.mimic);
    if (j.mimic && w.mimic) {
      k.txt(t + " mimic joint", j.mimic->joint_name, w.mj);
      k.num(t + " multiplier", j.mimic->multiplier, w.mult);
      k.num(t + " offset", j.mimic->offset, w.off);
    }
    k.yes(t + " dynamics present", (j.dynamics != nullptr) == w.dyn);
    if (j.dynamics && w.dyn) {
      k.num(t + " damping", j.dynamics->damping, w.damp);
      k.num(t + " friction", j.dynamics->friction, w.fric);
    }
  }
  return k.ok;
}

inline ref::Robot to_robot(const Doc &d) {
  ref::Robot r;
  r.name = d.name;
  for (auto &l : d.links) {
    ref::Link x;
    x.name = l.name;
    x.inertial = l.inertial;
    x.mass = l.mass;
    x.com = l.ixyz;
    x.crpy = l.irpy;
    for (int i = 0; i < 6; i++)
      x.I[i] = l.I[i];
    r.links.push_back(x);
  }
  for (auto &j : d.joints) {
    ref::Joint x;
    x.name = j.name;
    x.type = j.type == T_REV ? ref::REV : j.type == T_CONT ? ref::CONT : j.type == T_PRIS ? ref::PRIS : ref::FIX;
    x.parent = j.parent;
    x.child = j.child;
    x.xyz = j.xyz;
    x.rpy = j.rpy;
    x.axis = j.axis;
    x.has_limit = j.limits;
    x.lower = j.lower;
    x.upper = j.upper;
    x.vel = j.vel;
    x.effort = j.effort;
    r.joints.push_back(x);
  }
  return r;
}
} // namespace doc
