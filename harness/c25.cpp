// C25: reading XML documents: typed attributes, handles, visitors, positions, files, copies and all kinds of nodes.
#include "mc.hpp"
#include "tinyxml.h"
#include <cerrno>
#include <climits>
#include <dirent.h>
#include <memory>
#include <sys/stat.h>
typedef std::string S;

static S show(const S &s) {
  S o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch >= 127) {
      snprintf(b, sizeof b, "\\x%02x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o;
}
// everything a tree says, as text
static S dump(const TiXmlNode &n) {
  S s = std::to_string(n.Type()) + "[";
  if (n.Type() != TiXmlNode::TINYXML_DOCUMENT) // the value of a document is its file name
    s += n.ValueStr();
  if (const TiXmlElement *e = n.ToElement())
    for (const TiXmlAttribute *a = e->FirstAttribute(); a; a = a->Next())
      s += S(" ") + a->Name() + "=" + a->ValueStr();
  if (const TiXmlText *t = n.ToText())
    s += t->CDATA() ? "|cdata" : "";
  if (const TiXmlDeclaration *d = n.ToDeclaration())
    s += S("|") + d->Version() + "|" + d->Encoding() + "|" + d->Standalone();
  s += "]";
  if (n.FirstChild()) {
    s += "(";
    for (const TiXmlNode *k = n.FirstChild(); k; k = k->NextSibling()) {
      s += dump(*k) + ",";
      if (k->Parent() != &n)
        s += "!parent!";
    }
    s += ")";
  }
  return s;
}

// ------------------------------------------------------------- numbers of attributes
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
enum Cls { GOOD, BAD, OPEN };
// a whole number: optional blanks, optional sign, digits and nothing else
static Cls int_class(const S &s, long long &v) {
  size_t i = 0;
  while (i < s.size() && ws(s[i]))
    i++;
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+'))
    neg = s[i++] == '-';
  if (i >= s.size() || !dig(s[i]))
    return BAD;
  v = 0;
  for (; i < s.size() && dig(s[i]); i++)
    v = std::min(v * 10 + (s[i] - '0'), 1000000000000000ll); // larger numbers are only known to be large
  if (neg)
    v = -v;
  return i == s.size() ? GOOD : OPEN; // something follows the number: not specified
}
static Cls real_class(const S &s, double &v) {
  size_t i = 0;
  while (i < s.size() && ws(s[i]))
    i++;
  size_t b = i;
  if (i < s.size() && (s[i] == '-' || s[i] == '+'))
    i++;
  size_t d0 = i;
  while (i < s.size() && dig(s[i]))
    i++;
  size_t nd = i - d0;
  if (i < s.size() && s[i] == '.') {
    i++;
    size_t f = i;
    while (i < s.size() && dig(s[i]))
      i++;
    nd += i - f;
  }
  if (nd == 0)
    return BAD;
  if (i < s.size() && s[i] == 'e') {
    i++;
    if (i < s.size() && (s[i] == '-' || s[i] == '+'))
      i++;
    if (i >= s.size() || !dig(s[i]))
      return OPEN;
    while (i < s.size() && dig(s[i]))
      i++;
  }
  if (i < s.size())
    return OPEN;
  errno = 0;
  v = strtod(s.c_str() + b, nullptr);
  return errno == ERANGE ? OPEN : GOOD; // outside the range of a double: not specified
}
// an element whose attribute "x" is at one of three places between similar names
static std::unique_ptr<TiXmlElement> holder(const S &v, int place) {
  std::unique_ptr<TiXmlElement> e(new TiXmlElement("a"));
  auto others = [&](int k) {
    if (k == 0)
      e->SetAttribute("xx", "77"), e->SetAttribute("X", "true");
    else
      e->SetAttribute("x ", "78"), e->SetAttribute("", "no");
  };
  if (place >= 1)
    others(0);
  if (place >= 2)
    others(1);
  e->SetAttribute("x", v.c_str());
  if (place < 1)
    others(0);
  if (place < 2)
    others(1);
  return e;
}
static void typed(mc::Ctx &c, const S &v, int place) {
  c.step();
  c.state(mc::mixs(place, v));
  std::unique_ptr<TiXmlElement> e = holder(v, place);
  const TiXmlElement &E = *e;
  const TiXmlAttribute *a = E.FirstAttribute();
  while (a && S(a->Name()) != "x")
    a = a->Next();
  S h = "attribute [" + show(v) + "]: ";
  if (!c.check("attr", a != 0 && a->ValueStr() == v, h + "is missing"))
    return;
  long long n = 0;
  Cls ic = int_class(v, n);
  if (ic != BAD && (n > INT_MAX || n < INT_MIN))
    ic = OPEN;
  struct R {
    int rc;
    double val;
    const char *what;
    bool touched;
  };
  // integers
  {
    const int U = -424242;
    std::vector<R> r;
    auto put = [&](int rc, int x, const char *w) { r.push_back(R{rc, (double)x, w, x != U}); };
    int x = U, rc = E.QueryIntAttribute("x", &x);
    put(rc, x, "QueryIntAttribute");
    x = U, rc = E.QueryIntAttribute(S("x"), &x);
    put(rc, x, "QueryIntAttribute of a string");
    x = U, rc = a->QueryIntValue(&x);
    put(rc, x, "QueryIntValue");
    for (auto &y : r)
      if (ic == GOOD)
        c.check("int", y.rc == TIXML_SUCCESS && y.val == (double)n, h + y.what + " gives " + std::to_string(y.val) + " result " + std::to_string(y.rc));
      else if (ic == BAD)
        c.check("int-type", y.rc == TIXML_WRONG_TYPE && !y.touched, h + y.what + " gives " + std::to_string(y.val) + " result " + std::to_string(y.rc));
    x = U, rc = E.QueryValueAttribute(S("x"), &x);
    if (ic == GOOD)
      c.check("int", rc == TIXML_SUCCESS && x == n, h + "QueryValueAttribute gives " + std::to_string(x));
    else if (ic == BAD)
      c.check("int-type", rc == TIXML_WRONG_TYPE, h + "QueryValueAttribute result " + std::to_string(rc));
    x = U;
    const char *t = E.Attribute("x", &x);
    c.check("attr", t && v == t && t == a->Value(), h + "text of Attribute with an integer");
    if (ic == GOOD)
      c.check("int", x == n, h + "Attribute gives " + std::to_string(x));
    else if (ic == BAD)
      c.check("int-type", x == U, h + "Attribute gives " + std::to_string(x));
    x = U;
    const S *ts = E.Attribute(S("x"), &x);
    c.check("attr", ts && *ts == v, h + "text of Attribute with an integer");
    if (ic == GOOD)
      c.check("int", x == n, h + "Attribute of a string gives " + std::to_string(x));
    else if (ic == BAD)
      c.check("int-type", x == U, h + "Attribute of a string gives " + std::to_string(x));
    t = E.Attribute("x", (int *)0);
    c.check("attr", t && v == t, h + "Attribute without a place for the integer");
    if (ic == GOOD)
      c.check("int", a->IntValue() == n, h + "IntValue gives " + std::to_string(a->IntValue()));
    unsigned u = 4242;
    rc = E.QueryUnsignedAttribute("x", &u);
    if (ic == GOOD && n >= 0)
      c.check("int", rc == TIXML_SUCCESS && u == (unsigned)n, h + "QueryUnsignedAttribute gives " + std::to_string(u));
    else if (ic == BAD)
      c.check("int-type", rc == TIXML_WRONG_TYPE, h + "QueryUnsignedAttribute result " + std::to_string(rc));
  }
  // real numbers
  {
    const double U = -4242.5;
    double w = 0;
    Cls dc = real_class(v, w);
    std::vector<R> r;
    auto put = [&](int rc, double x, const char *what) { r.push_back(R{rc, x, what, x != U}); };
    double x = U;
    int rc = E.QueryDoubleAttribute("x", &x);
    put(rc, x, "QueryDoubleAttribute");
    x = U, rc = E.QueryDoubleAttribute(S("x"), &x);
    put(rc, x, "QueryDoubleAttribute of a string");
    x = U, rc = a->QueryDoubleValue(&x);
    put(rc, x, "QueryDoubleValue");
    for (auto &y : r)
      if (dc == GOOD)
        c.check("double", y.rc == TIXML_SUCCESS && y.val == w, h + y.what + " gives " + std::to_string(y.val) + " result " + std::to_string(y.rc));
      else if (dc == BAD)
        c.check("double-type", y.rc == TIXML_WRONG_TYPE && !y.touched, h + y.what + " gives " + std::to_string(y.val) + " result " + std::to_string(y.rc));
    float f = -42.5f;
    rc = E.QueryFloatAttribute("x", &f);
    if (dc == GOOD)
      c.check("double", rc == TIXML_SUCCESS && f == (float)w, h + "QueryFloatAttribute gives " + std::to_string(f));
    else if (dc == BAD)
      c.check("double-type", rc == TIXML_WRONG_TYPE && f == -42.5f, h + "QueryFloatAttribute gives " + std::to_string(f));
    x = U;
    rc = E.QueryValueAttribute(S("x"), &x);
    if (dc == GOOD)
      c.check("double", rc == TIXML_SUCCESS && x == w, h + "QueryValueAttribute gives " + std::to_string(x));
    else if (dc == BAD)
      c.check("double-type", rc == TIXML_WRONG_TYPE, h + "QueryValueAttribute result " + std::to_string(rc));
    x = U;
    const char *t = E.Attribute("x", &x);
    c.check("attr", t && v == t, h + "text of Attribute with a number");
    if (dc == GOOD)
      c.check("double", x == w, h + "Attribute gives " + std::to_string(x));
    else if (dc == BAD)
      c.check("double-type", x == U, h + "Attribute gives " + std::to_string(x));
    x = U;
    const S *ts = E.Attribute(S("x"), &x);
    c.check("attr", ts && *ts == v, h + "text of Attribute with a number");
    if (dc == GOOD)
      c.check("double", x == w, h + "Attribute of a string gives " + std::to_string(x));
    else if (dc == BAD)
      c.check("double-type", x == U, h + "Attribute of a string gives " + std::to_string(x));
    t = E.Attribute("x", (double *)0);
    c.check("attr", t && v == t, h + "Attribute without a place for the number");
    if (dc == GOOD)
      c.check("double", a->DoubleValue() == w, h + "DoubleValue gives " + std::to_string(a->DoubleValue()));
  }
  // text
  S t = "?";
  int rc = E.QueryStringAttribute("x", &t);
  c.check("attr", rc == TIXML_SUCCESS && t == v, h + "QueryStringAttribute gives " + show(t));
  t = "?";
  rc = E.QueryValueAttribute(S("x"), &t);
  c.check("attr", rc == TIXML_SUCCESS && t == v, h + "QueryValueAttribute gives the text " + show(t));
  c.check("attr", dump(E) == dump(*holder(v, place)), h + "asking changes the element");
}
static void missing(mc::Ctx &c) {
  for (int p = 0; p < 3; p++) {
    auto e = holder("5", p);
    const TiXmlElement &E = *e;
    for (const char *n : {"y", "xxx", "xX", "x  ", " x", "XX"}) {
      c.step();
      S h = S("no attribute ") + n + ": ";
      int i = 7;
      unsigned u = 7;
      double d = 7.5;
      float f = 7.5;
      bool b = true;
      S s = "7";
      c.check("missing", E.QueryIntAttribute(n, &i) == TIXML_NO_ATTRIBUTE && E.QueryIntAttribute(S(n), &i) == TIXML_NO_ATTRIBUTE && E.QueryValueAttribute(S(n), &i) == TIXML_NO_ATTRIBUTE, h + "integers");
      c.check("missing", E.QueryUnsignedAttribute(n, &u) == TIXML_NO_ATTRIBUTE && E.QueryBoolAttribute(n, &b) == TIXML_NO_ATTRIBUTE, h + "unsigned, bool");
      c.check("missing", E.QueryDoubleAttribute(n, &d) == TIXML_NO_ATTRIBUTE && E.QueryDoubleAttribute(S(n), &d) == TIXML_NO_ATTRIBUTE && E.QueryFloatAttribute(n, &f) == TIXML_NO_ATTRIBUTE, h + "numbers");
      c.check("missing", E.QueryStringAttribute(n, &s) == TIXML_NO_ATTRIBUTE && E.QueryValueAttribute(S(n), &s) == TIXML_NO_ATTRIBUTE, h + "text");
      c.check("missing", !E.Attribute(n) && !E.Attribute(S(n)) && !E.Attribute(n, &i) && !E.Attribute(S(n), &i) && !E.Attribute(n, &d) && !E.Attribute(S(n), &d), h + "Attribute");
      c.check("missing", i == 7 && u == 7 && d == 7.5 && f == 7.5f && b && s == "7", h + "output is touched");
    }
  }
}
static void set_int(mc::Ctx &c, int v, int how) {
  c.step();
  c.state(mc::mix(how, (uint64_t)(int64_t)v));
  auto e = holder("old", how % 3);
  if (how % 2)
    e->RemoveAttribute("x");
  int k = how / 3 % 3;
  if (k == 0)
    e->SetAttribute("x", v);
  else if (k == 1)
    e->SetAttribute(S("x"), v);
  else {
    if (!e->Attribute("x"))
      e->SetAttribute("x", "");
    TiXmlAttribute *a = e->FirstAttribute();
    while (S(a->Name()) != "x")
      a = a->Next();
    a->SetIntValue(v);
  }
  int r = 1;
  c.check("set-int", e->QueryIntAttribute("x", &r) == TIXML_SUCCESS && r == v, "integer " + std::to_string(v) + " is read back as " + std::to_string(r));
  c.eq("set-int", e->Attribute("x") ? e->Attribute("x") : "(none)", std::to_string(v), "text of an integer");
  c.check("set-int", *e->Attribute(S("xx")) == "77" && *e->Attribute(S("X")) == "true" && *e->Attribute(S("")) == "no", "setting an integer changes another attribute");
  int n = 0;
  for (auto *a = e->FirstAttribute(); a; a = a->Next())
    n++;
  c.eqi("set-int", n, 5, "number of attributes");
}
static void set_double(mc::Ctx &c, double v, int how) {
  c.step();
  c.state(mc::mix(how + 50, (uint64_t)std::llround(v * 64)));
  auto e = holder("old", how % 3);
  if (how % 2)
    e->RemoveAttribute("x");
  int k = how / 3 % 3;
  if (k == 0)
    e->SetDoubleAttribute("x", v);
  else if (k == 1)
    e->SetDoubleAttribute(S("x"), v);
  else {
    if (!e->Attribute("x"))
      e->SetAttribute("x", "");
    TiXmlAttribute *a = e->FirstAttribute();
    while (S(a->Name()) != "x")
      a = a->Next();
    a->SetDoubleValue(v);
  }
  double r = 1;
  int rc = e->QueryDoubleAttribute("x", &r);
  c.check("set-double", rc == TIXML_SUCCESS && std::fabs(r - v) <= 6e-6 * std::fabs(v), "number " + std::to_string(v) + " is read back as " + std::to_string(r));
  c.check("set-double", *e->Attribute(S("xx")) == "77" && *e->Attribute(S("X")) == "true" && *e->Attribute(S("")) == "no", "setting a number changes another attribute");
}
static void bools(mc::Ctx &c) {
  static const char *T[] = {"true", "yes", "1"}, *F[] = {"false", "no", "0"};
  for (int p = 0; p < 3; p++) {
    for (int k = 0; k < 6; k++) {
      S w = k < 3 ? T[k] : F[k - 3];
      for (unsigned m = 0; m < (1u << w.size()); m++) {
        S s = w;
        for (size_t i = 0; i < s.size(); i++)
          if (m >> i & 1)
            s[i] = (char)toupper((unsigned char)s[i]);
        for (int init = 0; init < 2; init++) {
          c.step();
          bool b = init;
          int rc = holder(s, p)->QueryBoolAttribute("x", &b);
          c.check("bool", rc == TIXML_SUCCESS && b == (k < 3), "boolean [" + s + "] gives " + std::to_string(b) + " result " + std::to_string(rc));
        }
      }
    }
    for (const char *s : {"", "t", "tr", "tru", "y", "ye", "f", "fals", "n", "on", "off", "2", "-1", "-0", " true", " 1", "\tno", "wahr", "3.0", ".", "&", "T", "Y", "eslaf"})
      for (int init = 0; init < 2; init++) {
        c.step();
        bool b = init;
        int rc = holder(s, p)->QueryBoolAttribute("x", &b);
        c.check("bool", rc == TIXML_WRONG_TYPE && b == (bool)init, S("boolean [") + s + "] gives " + std::to_string(b) + " result " + std::to_string(rc));
      }
  }
}

// ------------------------------------------------------------- handles
static TiXmlNode *kind_node(int k) {
  switch (k) {
  case 0:
    return new TiXmlElement("a");
  case 1:
    return new TiXmlElement("b");
  case 2:
    return new TiXmlElement("ab");
  case 3:
    return new TiXmlText("a");
  case 4:
    return new TiXmlComment("b");
  default: {
    auto u = new TiXmlUnknown();
    u->SetValue("a");
    return u;
  }
  }
}
static void handles(mc::Ctx &c, const std::vector<int> &kinds, bool doc) {
  static const S V[] = {"a", "b", "ab", "a", "b", "a"};
  c.step();
  uint64_t hsh = doc;
  TiXmlDocument d;
  TiXmlNode *top = &d;
  if (!doc)
    top = d.LinkEndChild(new TiXmlElement("top"));
  std::vector<TiXmlNode *> ch;
  for (int k : kinds) {
    hsh = mc::mix(hsh, k);
    if (TiXmlNode *n = top->LinkEndChild(kind_node(k)))
      ch.push_back(n);
  }
  c.state(hsh);
  S h = "children";
  for (int k : kinds)
    h += " " + std::to_string(k);
  h += ": ";
  TiXmlHandle H(top);
  auto nth = [&](const S *v, bool el, int i) -> TiXmlNode * {
    for (size_t k = 0; k < kinds.size(); k++)
      if ((!v || V[kinds[k]] == *v) && (!el || kinds[k] < 3) && i-- <= 0)
        return ch[k];
    return nullptr;
  };
  auto same = [&](const TiXmlHandle &x, TiXmlNode *w, const S &what) {
    c.check("handle", x.ToNode() == w && x.Node() == w, h + what);
    c.check("handle", x.ToElement() == (w ? w->ToElement() : nullptr) && x.Element() == x.ToElement(), h + what + " as an element");
    c.check("handle", x.ToText() == (w ? w->ToText() : nullptr) && x.Text() == x.ToText(), h + what + " as text");
    c.check("handle", x.ToUnknown() == (w ? w->ToUnknown() : nullptr) && x.Unknown() == x.ToUnknown(), h + what + " as unknown");
  };
  same(H.FirstChild(), nth(0, false, 0), "FirstChild");
  same(H.FirstChildElement(), nth(0, true, 0), "FirstChildElement");
  for (int i = 0; i <= (int)kinds.size() + 1; i++) {
    same(H.Child(i), nth(0, false, i), "Child " + std::to_string(i));
    same(H.ChildElement(i), nth(0, true, i), "ChildElement " + std::to_string(i));
  }
  for (const S &v : {S("a"), S("b"), S("ab"), S("zz")}) {
    same(H.FirstChild(v.c_str()), nth(&v, false, 0), "FirstChild " + v);
    same(H.FirstChild(v), nth(&v, false, 0), "FirstChild of a string " + v);
    same(H.FirstChildElement(v.c_str()), nth(&v, true, 0), "FirstChildElement " + v);
    same(H.FirstChildElement(v), nth(&v, true, 0), "FirstChildElement of a string " + v);
    for (int i = 0; i <= (int)kinds.size(); i++) {
      same(H.Child(v.c_str(), i), nth(&v, false, i), "Child " + v + " " + std::to_string(i));
      same(H.Child(v, i), nth(&v, false, i), "Child of a string " + v + " " + std::to_string(i));
      same(H.ChildElement(v.c_str(), i), nth(&v, true, i), "ChildElement " + v + " " + std::to_string(i));
      same(H.ChildElement(v, i), nth(&v, true, i), "ChildElement of a string " + v + " " + std::to_string(i));
    }
  }
  TiXmlHandle N((TiXmlNode *)0), N2 = H.Child((int)kinds.size());
  for (TiXmlHandle *x : {&N, &N2}) {
    TiXmlHandle y = *x;
    same(y, nullptr, "empty handle");
    same(y.FirstChild(), nullptr, "FirstChild of an empty handle");
    same(y.FirstChild("a"), nullptr, "FirstChild a of an empty handle");
    same(y.FirstChildElement(), nullptr, "FirstChildElement of an empty handle");
    same(y.FirstChildElement("a"), nullptr, "FirstChildElement a of an empty handle");
    same(y.Child(0), nullptr, "Child of an empty handle");
    same(y.Child("a", 0), nullptr, "Child a of an empty handle");
    same(y.ChildElement(0), nullptr, "ChildElement of an empty handle");
    same(y.ChildElement("a", 0), nullptr, "ChildElement a of an empty handle");
    y = H;
    same(y.FirstChild(), nth(0, false, 0), "FirstChild of an assigned handle");
  }
}

// ------------------------------------------------------------- visitors
// trees of up to seven nodes below a root: shape[i] is the parent of node i (0 is the root)
static int g_shapes[][7] = {{-1, 0, 0, 0, 0, 0, 0}, {-1, 0, 1, 2, 3, 4, 5}, {-1, 0, 0, 1, 1, 2, 2}, {-1, 0, 1, 1, 0, 4, 4}, {-1, 0, 0, 2, 2, 0, 5}, {-1, 0, 0, 0, 3, 3, 4}, {-1, 0, 1, 2, 2, 1, 0}};
struct Rec : TiXmlVisitor {
  std::vector<S> log;
  unsigned veto;
  explicit Rec(unsigned v) : veto(v) {}
  bool say(const S &s) {
    bool r = !(veto >> log.size() & 1);
    log.push_back(s);
    return r;
  }
  bool VisitEnter(const TiXmlDocument &) override { return say("enter document"); }
  bool VisitExit(const TiXmlDocument &) override { return say("exit document"); }
  bool VisitEnter(const TiXmlElement &e, const TiXmlAttribute *a) override {
    S s = "enter " + e.ValueStr();
    for (; a; a = a->Next())
      s += S(" ") + a->Name() + "=" + a->Value();
    return say(s);
  }
  bool VisitExit(const TiXmlElement &e) override { return say("exit " + e.ValueStr()); }
  bool Visit(const TiXmlDeclaration &) override { return say("declaration"); }
  bool Visit(const TiXmlText &t) override { return say("text " + t.ValueStr()); }
  bool Visit(const TiXmlComment &t) override { return say("comment " + t.ValueStr()); }
  bool Visit(const TiXmlUnknown &t) override { return say("unknown " + t.ValueStr()); }
};
static bool want_visit(const TiXmlNode &n, Rec &r) {
  switch (n.Type()) {
  case TiXmlNode::TINYXML_DOCUMENT:
  case TiXmlNode::TINYXML_ELEMENT: {
    bool in = n.ToDocument() ? r.VisitEnter(*n.ToDocument()) : r.VisitEnter(*n.ToElement(), n.ToElement()->FirstAttribute());
    if (in)
      for (const TiXmlNode *k = n.FirstChild(); k; k = k->NextSibling())
        if (!want_visit(*k, r))
          break;
    return n.ToDocument() ? r.VisitExit(*n.ToDocument()) : r.VisitExit(*n.ToElement());
  }
  case TiXmlNode::TINYXML_TEXT:
    return r.Visit(*n.ToText());
  case TiXmlNode::TINYXML_COMMENT:
    return r.Visit(*n.ToComment());
  case TiXmlNode::TINYXML_UNKNOWN:
    return r.Visit(*n.ToUnknown());
  default:
    return r.Visit(*n.ToDeclaration());
  }
}

// ------------------------------------------------------------- positions
static const std::vector<S> PT = {" ", "\t", "\n", "\r\n", "\r", "\xc3\xa9", "t", "<b/>", "<!--c-->", "<b x='1' y=\"\xe2\x82\xac\tz\"/>", "<b\n\tx='1'/>", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xef\xbc\x8c", "<d>\nu</d>", "<?p\n?>"};
struct Pos {
  int row, col;
};
// line and column of every byte
static std::vector<Pos> places(const S &s, int tab, bool utf8) {
  std::vector<Pos> r;
  int row = 1, col = 1;
  for (size_t i = 0; i < s.size();) {
    unsigned char ch = s[i];
    size_t n = 1;
    r.resize(i + 1, Pos{row, col});
    r[i] = Pos{row, col};
    if (ch == '\r' || ch == '\n') {
      if (i + 1 < s.size() && ((ch == '\r' && s[i + 1] == '\n') || (ch == '\n' && s[i + 1] == '\r')))
        n = 2;
      row++, col = 1;
    } else if (ch == '\t')
      col = ((col - 1) / tab + 1) * tab + 1;
    else if (utf8) {
      n = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4;
      if (s.compare(i, 3, "\xef\xbb\xbf") != 0)
        col++;
    } else
      col++;
    i += n;
  }
  return r;
}
static void positions(mc::Ctx &c, uint64_t i, int tab, bool utf8, int lead) {
  static const char *LEAD[] = {"", "\n \t", "<?xml version='1.0'?>\r\n"};
  S s = LEAD[lead];
  s += "<a q='1'>";
  for (int k : mc::seq(i, PT.size()))
    s += PT[k];
  s += "</a><!--end-->";
  if (!utf8 && s.find("\xef\xbb\xbf") != S::npos)
    return; // not a byte order mark there
  c.step();
  c.state(mc::mixs(tab * 2 + utf8, s));
  std::vector<Pos> want = places(s, tab ? tab : 1, utf8);
  TiXmlDocument d;
  d.SetTabSize(tab);
  d.Parse(s.c_str(), 0, utf8 ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_LEGACY);
  S h = "text [" + show(s) + "] tab size " + std::to_string(tab) + (utf8 ? "" : " legacy") + ": ";
  if (!c.check("position", !d.Error(), h + "is not read: " + d.ErrorDesc()))
    return;
  // the elements, comments, instructions and attributes of the text in order of appearance
  std::vector<std::pair<size_t, S>> marks;
  for (size_t k = 0; k < s.size(); k++)
    if (s[k] == '<' && s[k + 1] != '/' && s.compare(k, 5, "<?xml") != 0) {
      marks.push_back({k, s[k + 1] == '!' ? "comment" : s[k + 1] == '?' ? "unknown" : "element"});
    } else if (s[k] == '=' && (s[k + 1] == '\'' || s[k + 1] == '"') && s[k - 1] != 'n')
      marks.push_back({k - 1, "attribute"});
  std::vector<std::pair<const TiXmlBase *, S>> got;
  std::function<void(const TiXmlNode &)> walk = [&](const TiXmlNode &n) {
    if (n.ToElement()) {
      got.push_back({&n, "element"});
      for (const TiXmlAttribute *a = n.ToElement()->FirstAttribute(); a; a = a->Next())
        got.push_back({a, "attribute"});
    } else if (n.ToComment())
      got.push_back({&n, "comment"});
    else if (n.ToUnknown())
      got.push_back({&n, "unknown"});
    for (const TiXmlNode *k = n.FirstChild(); k; k = k->NextSibling())
      walk(*k);
  };
  walk(d);
  if (!c.eqi("position", (long long)got.size(), (long long)marks.size(), h + "number of nodes"))
    return;
  for (size_t k = 0; k < got.size(); k++) {
    c.eq("position", got[k].second, marks[k].second, h + "kind of node " + std::to_string(k));
    if (!tab)
      continue; // positions are switched off
    Pos w = want[marks[k].first];
    c.check("position", got[k].first->Row() == w.row && got[k].first->Column() == w.col,
            h + got[k].second + " number " + std::to_string(k) + " is at " + std::to_string(got[k].first->Row()) + ":" + std::to_string(got[k].first->Column()) + " instead of " + std::to_string(w.row) + ":" + std::to_string(w.col));
  }
}

// ------------------------------------------------------------- files
static S scratch() {
  S d = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
  return d;
}
static void spit(const S &p, const S &t) {
  FILE *f = fopen(p.c_str(), "wb");
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
}
static S slurp(const S &p) {
  S s;
  if (FILE *f = fopen(p.c_str(), "rb")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      s.append(b, n);
    fclose(f);
  }
  return s;
}
// open descriptors of files in the scratch directory
static int open_files() {
  int n = 0;
  S base = scratch();
  if (DIR *d = opendir("/proc/self/fd")) {
    while (dirent *e = readdir(d)) {
      char b[4096];
      ssize_t k = readlink((S("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
      if (k > 4 && S(b, k).find(".xml") != S::npos && S(b, k).find(base + "/") != S::npos)
        n++;
    }
    closedir(d);
  }
  return n;
}
static void load(mc::Ctx &c, const S &file, const S &normal, bool condense, int how, const S &h) {
  S path = scratch() + "/in.xml";
  spit(path, file);
  c.step();
  TiXmlBase::SetCondenseWhiteSpace(condense);
  int fds = open_files();
  {
    TiXmlDocument want;
    want.Parse(normal.c_str());
    std::unique_ptr<TiXmlDocument> d;
    bool ok = false;
    FILE *f = nullptr;
    switch (how) {
    case 0:
      d.reset(new TiXmlDocument(path.c_str()));
      ok = d->LoadFile();
      break;
    case 1:
      d.reset(new TiXmlDocument());
      d->LinkEndChild(new TiXmlElement("before"));
      ok = d->LoadFile(path.c_str());
      break;
    case 2:
      d.reset(new TiXmlDocument(path));
      ok = d->LoadFile(path);
      break;
    default:
      d.reset(new TiXmlDocument());
      f = fopen(path.c_str(), "rb");
      if (how == 4)
        fseek(f, 2, SEEK_SET);
      ok = d->LoadFile(f);
      fclose(f);
    }
    c.check("load", ok == !want.Error(), h + "LoadFile gives " + std::to_string(ok) + " " + d->ErrorDesc());
    c.check("load", ok == !d->Error(), h + "LoadFile and Error disagree");
    if (!want.Error())
      c.eq("load", dump(*d), dump(want), h + "content of the file");
    if (how < 3)
      c.eq("load", d->Value(), path, h + "file name");
    // and saved again
    if (ok && (how == 0 || how == 3)) {
      S out = scratch() + "/out.xml";
      spit(out, "old content, longer than anything that is written here ............................................................................");
      bool saved;
      if (how == 0)
        saved = d->SaveFile(out);
      else {
        FILE *g = fopen(out.c_str(), "w");
        saved = d->SaveFile(g);
        fclose(g);
      }
      c.check("save", saved, h + "SaveFile fails");
      S bytes = slurp(out);
      bool bom = file.compare(0, 3, "\xef\xbb\xbf") == 0;
      c.check("save", (bytes.compare(0, 3, "\xef\xbb\xbf") == 0) == bom, h + "byte order mark of the saved file");
      char *buf = nullptr;
      size_t n = 0;
      FILE *m = open_memstream(&buf, &n);
      d->Print(m);
      fclose(m);
      c.eq("save", show(bytes), show((bom ? "\xef\xbb\xbf" : "") + S(buf, n)), h + "saved bytes");
      free(buf);
      // so is a copy, made by assignment
      {
        TiXmlDocument k;
        if (how == 3)
          k.LoadFile(out); // has or has not a mark itself
        k = *d;
        S two = scratch() + "/copy.xml";
        c.check("save", k.SaveFile(two), h + "a copy cannot be saved");
        c.check("save", slurp(two) == bytes, h + "a copy is saved differently");
        unlink(two.c_str());
      }
      if (condense) {
        TiXmlDocument e(out);
        c.check("save", e.LoadFile(), h + "saved file cannot be read");
        c.eq("save", dump(e), dump(*d), h + "saved and read again");
      }
    }
  }
  TiXmlBase::SetCondenseWhiteSpace(true);
  c.eqi("files", open_files(), fds, h + "open files");
  unlink(path.c_str());
}
static const std::vector<S> FT = {"\r", "\n", "x", " ", "<b/>", "\xc3\xa9"};
static S normal_breaks(const S &body) {
  S n;
  for (size_t k = 0; k < body.size(); k++)
    if (body[k] == '\r') {
      n += '\n';
      if (k + 1 < body.size() && body[k + 1] == '\n')
        k++;
    } else
      n += body[k];
  return n;
}
static void file_text(mc::Ctx &c, uint64_t i, int pre, bool bom, bool cond) {
  static const char *PRE[] = {"", "<?xml version=\"1.0\"?>\r\n", "\r<!--\r\n-->\n"};
  S body = S(PRE[pre]) + "<a v='1'>";
  for (int k : mc::seq(i, FT.size()))
    body += FT[k];
  body += "</a>\r\n";
  S n = normal_breaks(body);
  S b = bom ? "\xef\xbb\xbf" : "";
  c.state(mc::mixs(cond, b + body));
  load(c, b + body, b + n, cond, (int)(i % 5), "file [" + show(b + body) + "]: ");
}
static void file_errors(mc::Ctx &c) {
  S none = scratch() + "/no-such-dir/x.xml", empty = scratch() + "/empty.xml", dir = scratch();
  spit(empty, "");
  int fds = open_files();
  for (int how = 0; how < 3; how++) {
    for (const S &p : {none, empty}) {
      c.step();
      TiXmlDocument d(how == 0 ? p : S("other"));
      d.LinkEndChild(new TiXmlElement("a"));
      bool ok = how == 0 ? d.LoadFile() : how == 1 ? d.LoadFile(p) : d.LoadFile(p.c_str(), TIXML_ENCODING_UTF8);
      c.check("load-error", !ok && d.Error(), "file " + p + " is read");
      c.check("load-error", d.ErrorId() == (p == none ? TiXmlBase::TIXML_ERROR_OPENING_FILE : TiXmlBase::TIXML_ERROR_DOCUMENT_EMPTY), "error of file " + p + " is " + std::to_string(d.ErrorId()));
      c.check("load-error", d.ErrorDesc() && *d.ErrorDesc(), "no description of the error");
      d.ClearError();
      c.check("load-error", !d.Error() && d.ErrorId() == 0, "ClearError");
      // afterwards the document can be used
      d.Parse("<b/>");
      c.check("load-error", !d.Error() && d.FirstChildElement("b"), "document after a failed load");
    }
    TiXmlDocument d(none);
    d.LinkEndChild(new TiXmlElement("a"));
    c.check("load-error", !(how == 0 ? d.SaveFile() : how == 1 ? d.SaveFile(none) : d.SaveFile(none.c_str())), "saving to a missing directory succeeds");
    c.check("load-error", d.FirstChildElement("a") && !d.FirstChildElement("a")->NextSibling(), "saving changes the document");
  }
  TiXmlDocument d;
  c.check("load-error", !d.LoadFile((FILE *)0) && d.Error(), "no file is read");
  c.eqi("files", open_files(), fds, "open files after errors");
  // long files, around buffer sizes
  for (size_t n : {1u, 255u, 256u, 1023u, 1024u, 4095u, 4096u, 4097u, 65535u, 65536u, 70001u})
    for (int nl = 0; nl < 3; nl++) {
      S t = "<a>", w = t;
      for (size_t k = 0; k < n; k++)
        t += k % 7 == 3 ? (nl == 0 ? "\n" : nl == 1 ? "\r" : "\r\n") : "x", w += k % 7 == 3 ? "\n" : "x";
      for (int how = 0; how < 4; how++)
        load(c, t + "</a>", w + "</a>", how & 1, how, "file of " + std::to_string(n) + " characters: ");
    }
}

// ------------------------------------------------------------- nodes of all kinds, reprinted
static const int NK = 12;
static S node_src(int k) { // how the node is written
  static const char *T[] = {"<e/>", "<e x=\"1\" y='\"'>t</e>", "t &amp; &lt;u&gt;", "<![CDATA[ <raw> & ]] ]]>", "<!-- a - b & <c> -->", "<!ELEMENT e (#PCDATA)>", "<?php echo 1 ?>", "<e><e/><f/></e>",
                            "<e><!--in--></e>", "<e><![CDATA[x]]></e>", "<!---->", "<![CDATA[]]>"};
  return T[k];
}
static TiXmlNode *node_of(int k) {
  auto E = [](const char *n) { return new TiXmlElement(n); };
  switch (k) {
  case 0:
    return E("e");
  case 1: {
    auto e = E("e");
    e->SetAttribute("x", "1");
    e->SetAttribute("y", "\"");
    e->LinkEndChild(new TiXmlText("t"));
    return e;
  }
  case 2:
    return new TiXmlText("t & <u>");
  case 3:
  case 11: {
    auto t = new TiXmlText(k == 3 ? " <raw> & ]] " : "");
    t->SetCDATA(true);
    return t;
  }
  case 4:
    return new TiXmlComment(" a - b & <c> ");
  case 5:
  case 6: {
    auto u = new TiXmlUnknown();
    u->SetValue(k == 5 ? "!ELEMENT e (#PCDATA)" : "?php echo 1 ?");
    return u;
  }
  case 7: {
    auto e = E("e");
    e->LinkEndChild(E("e"));
    e->LinkEndChild(E("f"));
    return e;
  }
  case 8: {
    auto e = E("e");
    e->LinkEndChild(new TiXmlComment("in"));
    return e;
  }
  case 9: {
    auto e = E("e");
    auto t = new TiXmlText("x");
    t->SetCDATA(true);
    e->LinkEndChild(t);
    return e;
  }
  default:
    return new TiXmlComment("");
  }
}
static S print(const TiXmlDocument &d, int how) {
  if (how == 0 || how == 2) {
    TiXmlPrinter p;
    if (how == 2) {
      p.SetIndent("\t");
      p.SetLineBreak("\r\n");
    }
    d.Accept(&p);
    return how == 0 ? S(p.CStr(), p.Size()) : p.Str();
  }
  if (how == 1) {
    S s;
    s << d;
    return s;
  }
  if (how == 3) {
    std::ostringstream o;
    o << d;
    return o.str();
  }
  char *buf = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&buf, &n);
  d.Print(f);
  fclose(f);
  S s(buf, n);
  free(buf);
  return s;
}
static void nodes(mc::Ctx &c, const std::vector<int> &ks, int where, int decl) {
  // two texts in a row cannot be told from one
  for (size_t i = 1; i < ks.size(); i++)
    if (ks[i] == 2 && ks[i - 1] == 2)
      return;
  bool top = where == 0;
  if (top) // on the top level there is no text
    for (int k : ks)
      if (k == 2 || k == 3 || k == 11)
        return;
  TiXmlDocument d;
  S src;
  if (decl == 1) {
    d.LinkEndChild(new TiXmlDeclaration("1.0", "UTF-8", ""));
    src += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
  } else if (decl == 2) {
    d.LinkEndChild(new TiXmlDeclaration("1.0", "", "yes"));
    src += "<?xml version='1.0' standalone='yes' ?>\n";
  } else if (decl == 3) {
    d.LinkEndChild(new TiXmlDeclaration(S("1.1"), S("latin1"), S("no")));
    src += "<?xml version=\"1.1\" encoding=\"latin1\" standalone=\"no\"?>";
  }
  TiXmlNode *p = &d;
  if (where == 1)
    p = d.LinkEndChild(new TiXmlElement("r")), src += "<r>";
  if (where == 2)
    p = d.LinkEndChild(new TiXmlElement("r"))->LinkEndChild(new TiXmlElement("s")), src += "<r><s>";
  bool any = false;
  for (int k : ks) {
    p->LinkEndChild(node_of(k));
    src += node_src(k);
    any |= k == 0 || k == 1 || k >= 7;
  }
  if (where == 1)
    src += "</r>";
  if (where == 2)
    src += "</s></r>";
  c.step();
  c.state(mc::mixs(0, src));
  S want = dump(d), h = "document [" + src + "]: ";
  TiXmlDocument e;
  e.Parse(src.c_str());
  c.eq("nodes", e.Error() ? S(e.ErrorDesc()) : dump(e), want, h + "as parsed");
  for (int how = 0; how < 5; how++) {
    S out = print(d, how);
    TiXmlDocument f;
    f.Parse(out.c_str(), 0, how & 1 ? TIXML_ENCODING_UTF8 : TIXML_DEFAULT_ENCODING);
    c.eq("reprint", f.Error() ? S(f.ErrorDesc()) : dump(f), want, h + "printed (" + std::to_string(how) + ") as [" + show(out) + "]");
    if (!top) {
      std::istringstream is(out + " rest");
      TiXmlDocument g;
      is >> g;
      c.eq("reprint", g.Error() ? S(g.ErrorDesc()) : dump(g), want, h + "printed (" + std::to_string(how) + ") and streamed as [" + show(out) + "]");
    }
    c.eq("reprint", dump(d), want, h + "printing changes the document");
  }
  // copies of the document and of the nodes
  {
    TiXmlDocument k(d), l;
    l.LinkEndChild(new TiXmlElement("before"));
    l = d;
    std::unique_ptr<TiXmlNode> m(static_cast<const TiXmlNode &>(d).Clone());
    c.eq("copy", dump(k), want, h + "copied");
    c.eq("copy", dump(l), want, h + "assigned");
    c.eq("copy", dump(*m), want, h + "cloned");
    for (TiXmlNode *n = p->FirstChild(); n; n = n->NextSibling()) {
      S w = dump(*n);
      std::unique_ptr<TiXmlNode> q, q2;
      if (auto *x = n->ToElement()) {
        q.reset(new TiXmlElement(*x));
        auto *y = new TiXmlElement("old");
        y->SetAttribute("old", "1");
        y->LinkEndChild(new TiXmlText("old"));
        *y = *x;
        q2.reset(y);
      } else if (auto *x = n->ToText()) {
        q.reset(new TiXmlText(*x));
        auto *y = new TiXmlText("old");
        *y = *x;
        q2.reset(y);
      } else if (auto *x = n->ToComment()) {
        q.reset(new TiXmlComment(*x));
        auto *y = new TiXmlComment("old");
        *y = *x;
        q2.reset(y);
      } else if (auto *x = n->ToUnknown()) {
        q.reset(new TiXmlUnknown(*x));
        auto *y = new TiXmlUnknown();
        *y = *x;
        q2.reset(y);
      } else if (auto *x = n->ToDeclaration()) {
        q.reset(new TiXmlDeclaration(*x));
        auto *y = new TiXmlDeclaration("9", "old", "old");
        *y = *x;
        q2.reset(y);
      }
      c.eq("copy", dump(*q), w, h + "node constructed from another");
      c.eq("copy", dump(*q2), w, h + "node assigned");
      c.check("copy", !q->Parent() && !q->NextSibling() && !q->PreviousSibling() && !q2->Parent() && !q2->NextSibling() && !q2->PreviousSibling(), h + "a copy has neighbours");
      q->SetValue("changed");
      if (auto *x = q->ToElement()) {
        x->SetAttribute("x", "changed");
        x->Clear();
      }
      c.eq("copy", dump(*n), w, h + "changing a copy changes the original");
      c.eq("copy", dump(*q2), w, h + "changing a copy changes another");
    }
    k.Clear();
    c.eq("copy", dump(d), want, h + "clearing a copy");
    d.Clear();
    c.eq("copy", dump(l), want, h + "clearing the original changes a copy");
    c.eq("copy", dump(*m), want, h + "clearing the original changes a clone");
  }
}

// the place of an error moves with the text
static const std::vector<S> ET = {"<a", "<a b='1' b='2'/>", "<a></b>", "<a b=>", "<a b>", "<a b='", "<a>text", "<a><![CDATA[x", "<a\n b='1'\n\tb='2'/>", "<a>\n<b>\n</a>", "<a><b/>\n  <", "<a/ >", "<a \n/\n>", "<a>\nz\t<b x></b></a>"};
static const std::vector<S> EP = {"\n", "\r\n", "\r", "<!-- x -->\n", "\n\n \t\n", "<?xml version='1.0'?>\n", "<e>\r\n</e>\n", "<f>\n\xc3\xa9\xe2\x82\xac</f>\r\n"};
static const int EN[] = {1, 1, 1, 1, 3, 1, 2, 2};
static void errors(mc::Ctx &c, const S &t, const std::vector<int> &pre, int tab) {
  c.step();
  S head;
  int rows = 0;
  for (int k : pre) {
    if (k == 0 && !head.empty() && head.back() == '\r')
      rows--; // completes a pair
    if (k == 2 && !head.empty() && head.back() == '\n')
      return; // a line feed and a carriage return: how they count is not specified
    if (k == 4 && !head.empty() && head.back() == '\r')
      return;
    if (k == 1 && !head.empty() && head.back() == '\n')
      return;
    head += EP[k];
    rows += EN[k];
  }
  TiXmlDocument a, b;
  a.SetTabSize(tab);
  b.SetTabSize(tab);
  a.Parse(t.c_str());
  b.Parse((head + t).c_str());
  c.state(mc::mixs(tab, head + t));
  S h = "text [" + show(head + t) + "]: ";
  if (!c.check("error", a.Error() && b.Error(), h + "no error"))
    return;
  c.eqi("error", b.ErrorId(), a.ErrorId(), h + "error");
  c.eq("error", b.ErrorDesc(), a.ErrorDesc(), h + "description");
  if (a.ErrorRow() > 0) {
    c.eqi("error", b.ErrorRow(), a.ErrorRow() + rows, h + "row of the error");
    c.eqi("error", b.ErrorCol(), a.ErrorCol(), h + "column of the error");
  } else
    c.check("error", b.ErrorRow() == 0 && b.ErrorCol() == 0, h + "the error has a place at " + std::to_string(b.ErrorRow()) + ":" + std::to_string(b.ErrorCol()));
  TiXmlDocument k(b), l;
  l.Parse("<x");
  l = b;
  for (TiXmlDocument *d : {&k, &l}) {
    c.check("error", d->Error() && d->ErrorId() == b.ErrorId() && S(d->ErrorDesc()) == b.ErrorDesc() && d->ErrorRow() == b.ErrorRow() && d->ErrorCol() == b.ErrorCol(), h + "error of a copy");
    d->ClearError();
    c.check("error", !d->Error() && d->ErrorId() == 0, h + "ClearError");
  }
  c.check("error", b.Error() && b.ErrorId() == a.ErrorId(), h + "ClearError of a copy");
  // a further good text clears the error
  b.Clear();
  b.Parse("<ok/>");
  c.check("error", !b.Error() && b.RootElement() && b.RootElement()->ValueStr() == "ok", h + "a good text afterwards");
}

static std::vector<mc::Family> make(bool thorough) {
  std::vector<mc::Family> F;
  static const std::vector<S> NA = {"0", "1", "9", "-", "+", ".", " ", "e", "x", "\t", "42"};
  F.push_back({"typed", mc::nseq(NA.size(), thorough ? 5 : 4), [](uint64_t i, mc::Ctx &c) {
                 S v;
                 for (int k : mc::seq(i, NA.size()))
                   v += NA[k];
                 for (int p = 0; p < 3; p++)
                   typed(c, v, p);
               }, nullptr});
  static const std::vector<S> LONG = {"", "2147483647", "-2147483648", "1000000000000", "0000000000000000000012", "12345678901234567890", "1e308", "-1e-308", "1e400", "0.1234567890123456789", "123456789.125", "4.9e-324", "nan", "abc", "x1", ",", "1,5", "--1", "+-1", ". 5"};
  F.push_back({"typed-long", LONG.size(), [](uint64_t i, mc::Ctx &c) {
                 for (int p = 0; p < 3; p++)
                   if (LONG[i] != "1e400" && LONG[i] != "4.9e-324" && LONG[i] != "-1e-308" && LONG[i] != "nan")
                     typed(c, LONG[i], p);
                 if (i == 0) {
                   missing(c);
                   bools(c);
                 }
               }, nullptr});
  F.push_back({"set-int", 34ull * 5 * 18, [](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int e = d.pick(34), o = d.pick(5), how = d.pick(18);
                 long long v = e < 32 ? (1ll << e) : e == 32 ? 1000000007 : 99999;
                 v = o == 0 ? v : o == 1 ? v - 1 : o == 2 ? -v : o == 3 ? -v - 1 : v + 1;
                 v = std::min<long long>(std::max<long long>(v, INT_MIN), INT_MAX);
                 set_int(c, (int)v, how);
               }, nullptr});
  F.push_back({"set-double", 601ull * 12 * 18, [](uint64_t i, mc::Ctx &c) {
                 static const double M[] = {1, -1, 1.5, -2.25, 9.99999, 9.999995, 9.9999949, 3.14159265358979, -1.23456789, 4.5, 6.02214, 0};
                 mc::Digits d(i);
                 int how = d.pick(18), m = d.pick(12), e = (int)d.pick(601) - 300;
                 set_double(c, M[m] * std::pow(10.0, e), how);
               }, nullptr});
  F.push_back({"handles", 2 * mc::nseq(6, thorough ? 6 : 5), [](uint64_t i, mc::Ctx &c) { handles(c, mc::seq(i / 2, 6), i & 1); }, nullptr});
  F.push_back({"visitors", 7ull * 64 * 8 * (thorough ? 988 : 172), [thorough](uint64_t i, mc::Ctx &c) {
                 // shapes, kinds of the leaves, start, refusals
                 mc::Digits d(i);
                 int *sh = g_shapes[d.pick(7)];
                 unsigned kinds = d.pick(64);
                 unsigned q = d.pick(8);
                 // refusals: none, one, two (thorough: three) of the first eighteen answers
                 static const std::vector<unsigned> VETO = [] {
                   std::vector<unsigned> r;
                   for (int n = 0; n <= 3; n++)
                     for (unsigned v = 0; v < 1u << 18; v++)
                       if (__builtin_popcount(v) == n)
                         r.push_back(v);
                   return r;
                 }();
                 unsigned veto = VETO[d.pick(thorough ? 988 : 172)];
                 TiXmlDocument doc;
                 doc.LinkEndChild(new TiXmlDeclaration("1.0", "", ""));
                 bool leaf[7];
                 for (int k = 0; k < 7; k++) {
                   leaf[k] = true;
                   for (int l = k + 1; l < 7; l++)
                     leaf[k] = leaf[k] && sh[l] != k;
                 }
                 std::vector<TiXmlNode *> n;
                 for (int k = 0; k < 7; k++) {
                   TiXmlNode *p = k == 0 ? (TiXmlNode *)&doc : n[sh[k]];
                   S nm = S("n") + char('0' + k);
                   TiXmlNode *x;
                   int kd = (kinds >> (k % 3 * 2)) & 3;
                   if (!leaf[k] || kd == 0 || k == 0) {
                     auto *e = new TiXmlElement(nm);
                     if (k % 2)
                       e->SetAttribute("k", k);
                     x = e;
                   } else if (kd == 1)
                     x = new TiXmlText(nm);
                   else if (kd == 2)
                     x = new TiXmlComment(nm.c_str());
                   else {
                     x = new TiXmlUnknown();
                     x->SetValue(nm);
                   }
                   n.push_back(p->LinkEndChild(x));
                 }
                 c.step();
                 Rec got(veto), want(veto);
                 bool g, w;
                 TiXmlNode *from = q < 7 ? n[q] : (TiXmlNode *)&doc;
                 g = from->Accept(&got);
                 w = want_visit(*from, want);
                 S sg, sw;
                 for (auto &s : got.log)
                   sg += s + "; ";
                 for (auto &s : want.log)
                   sw += s + "; ";
                 c.state(mc::mixs(veto, sw));
                 c.eq("visit", sg, sw, "visits with refusals " + std::to_string(veto));
                 c.check("visit", g == w, "result of Accept");
               }, nullptr});
  F.push_back({"positions", mc::nseq(PT.size(), thorough ? 4 : 3) * 3, [](uint64_t i, mc::Ctx &c) {
                 for (int tab : {0, 1, 4, 8})
                   for (int u = 0; u < 2; u++)
                     positions(c, i / 3, tab, u, i % 3);
               }, nullptr});
  F.push_back({"files", mc::nseq(FT.size(), thorough ? 6 : 5) * 3, [thorough](uint64_t i, mc::Ctx &c) {
                 for (int b = 0; b < 2; b++)
                   for (int w = 0; w < 2; w++)
                     file_text(c, i / 3, i % 3, b, w);
               }, nullptr});
  // long files full of line breaks, so that every two bytes of a pair straddle every block size
  static const std::vector<S> LP = {"\r\n", "\r", "\n\r", "x\r\n", "\r\r\n", "\xc3\xa9\r\n", "abcdef\r\n", "\xc3\xa9", "\r\n\r\n\t\t"};
  F.push_back({"files-long", LP.size() * 4 * (thorough ? 6 : 3), [](uint64_t i, mc::Ctx &c) {
                 static const size_t N[] = {5000, 70001, 300003, 20000, 140000, 1100000};
                 mc::Digits d(i);
                 const S &q = LP[d.pick(LP.size())];
                 size_t shift = d.pick(4), n = N[i / LP.size() / 4];
                 S b = "<a><!--" + S(shift, 's');
                 while (b.size() < n)
                   b += q;
                 b += "--><b/></a>";
                 c.state(i);
                 S nrm = normal_breaks(b);
                 for (int how = 0; how < 4; how++)
                   load(c, b, nrm, true, how, "file of " + std::to_string(b.size()) + " bytes of [" + show(q) + "] from " + std::to_string(shift) + ": ");
               }, nullptr});
  F.push_back({"errors", mc::nseq(EP.size(), thorough ? 4 : 3) * ET.size(), [](uint64_t i, mc::Ctx &c) {
                 for (int tab : {1, 4})
                   errors(c, ET[i % ET.size()], mc::seq(i / ET.size(), EP.size()), tab);
               }, nullptr});
  F.push_back({"file-errors", 1, [](uint64_t, mc::Ctx &c) { file_errors(c); }, nullptr});
  F.push_back({"nodes", mc::nseq(NK, thorough ? 5 : 4) * 3 * 4, [](uint64_t i, mc::Ctx &c) { nodes(c, mc::seq(i / 12, NK), i % 3, i / 3 % 4); }, nullptr});
  return F;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, make); }
