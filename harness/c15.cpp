// C15: the XML tree keeps its structure and its text through edits and reprinting.
#include "mc.hpp"
#include "tinyxml.h"
#include <list>
#include <memory>
typedef std::string S;

// ------------------------------------------------------------- tree model
struct M {
  int type;
  S value;
  std::vector<std::pair<S, S>> attrs;
  std::vector<std::shared_ptr<M>> kids;
  M *parent = nullptr;
  TiXmlNode *real = nullptr;
};
typedef std::shared_ptr<M> P;
static P clone(const M &m) {
  P r = std::make_shared<M>();
  r->type = m.type;
  r->value = m.value;
  r->attrs = m.attrs;
  for (auto &k : m.kids) {
    P c = clone(*k);
    c->parent = r.get();
    r->kids.push_back(c);
  }
  return r;
}
static P snapshot(const TiXmlNode *n) { // model of a tree as the library shows it
  P r = std::make_shared<M>();
  r->type = n->Type();
  r->value = n->ValueStr();
  r->real = const_cast<TiXmlNode *>(n);
  if (const TiXmlElement *e = n->ToElement())
    for (const TiXmlAttribute *a = e->FirstAttribute(); a; a = a->Next())
      r->attrs.push_back({a->Name(), a->ValueStr()});
  for (const TiXmlNode *c = n->FirstChild(); c; c = c->NextSibling()) {
    P k = snapshot(c);
    k->parent = r.get();
    r->kids.push_back(k);
  }
  return r;
}
static S text(const M &m) {
  S s = std::to_string(m.type) + "[" + m.value;
  for (auto &a : m.attrs)
    s += " " + a.first + "=" + a.second;
  s += "]";
  if (!m.kids.empty()) {
    s += "(";
    for (auto &k : m.kids)
      s += text(*k) + ",";
    s += ")";
  }
  return s;
}
// takes over the pointers of the real tree and compares everything that can be asked
static bool compare(mc::Ctx &c, M &m, TiXmlNode *n, TiXmlNode *parent, TiXmlDocument *doc, const S &where) {
  bool ok = true;
  auto chk = [&](bool b, const S &what) { ok &= c.check("tree", b, where + ": " + what); };
  m.real = n;
  chk(n->Type() == m.type, "type of " + m.value);
  chk(n->ValueStr() == m.value, "value " + n->ValueStr() + " instead of " + m.value);
  chk(n->Parent() == parent, "parent of " + m.value);
  chk(n->GetDocument() == doc, "document of " + m.value);
  chk((n->ToElement() != 0) == (m.type == TiXmlNode::TINYXML_ELEMENT), "ToElement");
  chk((n->ToText() != 0) == (m.type == TiXmlNode::TINYXML_TEXT), "ToText");
  chk((n->ToComment() != 0) == (m.type == TiXmlNode::TINYXML_COMMENT), "ToComment");
  chk((n->ToUnknown() != 0) == (m.type == TiXmlNode::TINYXML_UNKNOWN), "ToUnknown");
  chk((n->ToDocument() != 0) == (m.type == TiXmlNode::TINYXML_DOCUMENT), "ToDocument");
  chk((n->ToDeclaration() != 0) == (m.type == TiXmlNode::TINYXML_DECLARATION), "ToDeclaration");
  chk(n->NoChildren() == m.kids.empty(), "NoChildren of " + m.value);
  if (TiXmlElement *e = n->ToElement()) {
    TiXmlAttribute *a = e->FirstAttribute(), *prev = nullptr;
    for (auto &w : m.attrs) {
      if (!a) {
        chk(false, "attribute " + w.first + " of " + m.value + " is missing");
        break;
      }
      chk(a->Name() == w.first && a->ValueStr() == w.second, "attribute " + w.first + "=" + w.second + " is " + a->Name() + "=" + a->Value());
      chk(a->Previous() == prev, "attribute before " + w.first);
      const S *v = e->Attribute(w.first);
      chk(v && *v == w.second, "Attribute(" + w.first + ")");
      const char *v2 = e->Attribute(w.first.c_str());
      chk(v2 && S(v2) == w.second.c_str(), "Attribute(" + w.first + ") as text");
      prev = a;
      a = a->Next();
    }
    chk(!a, "additional attributes of " + m.value);
    chk(e->LastAttribute() == prev, "last attribute of " + m.value);
    if (!m.kids.empty() && m.kids[0]->type == TiXmlNode::TINYXML_TEXT)
      chk(e->GetText() && e->GetText() == m.kids[0]->value, "GetText of " + m.value);
    else
      chk(!e->GetText(), "GetText of " + m.value);
  }
  // forwards
  std::vector<TiXmlNode *> ch;
  for (TiXmlNode *k = n->FirstChild(); k && ch.size() < 64; k = k->NextSibling())
    ch.push_back(k);
  chk(ch.size() == m.kids.size(), "number of children of " + m.value + " is " + std::to_string(ch.size()) + " instead of " + std::to_string(m.kids.size()));
  if (ch.size() != m.kids.size())
    return false;
  size_t i = ch.size();
  for (TiXmlNode *k = n->LastChild(); k; k = k->PreviousSibling()) {
    if (i == 0 || ch[i - 1] != k) {
      chk(false, "backward order of the children of " + m.value);
      return false;
    }
    i--;
  }
  chk(i == 0, "backward order of the children of " + m.value);
  i = 0;
  for (TiXmlNode *k = 0; (k = n->IterateChildren(k)) && i < ch.size(); i++)
    chk(ch[i] == k, "IterateChildren of " + m.value);
  chk(i == ch.size(), "IterateChildren of " + m.value);
  // by value and by element
  auto first = [&](size_t from, int dir, const S *v, bool el) -> TiXmlNode * {
    for (long j = (long)from; j >= 0 && j < (long)m.kids.size(); j += dir)
      if ((!v || m.kids[j]->value == *v) && (!el || m.kids[j]->type == TiXmlNode::TINYXML_ELEMENT))
        return ch[j];
    return nullptr;
  };
  static const std::vector<S> names = {"a", "b", "t", "zz"};
  long last = (long)m.kids.size() - 1;
  chk(n->FirstChildElement() == first(0, 1, nullptr, true), "FirstChildElement of " + m.value);
  TiXmlHandle h(n);
  for (auto &v : names) {
    chk(n->FirstChild(v) == first(0, 1, &v, false), "FirstChild(" + v + ")");
    chk(n->LastChild(v) == first(last, -1, &v, false), "LastChild(" + v + ")");
    chk(n->FirstChildElement(v) == first(0, 1, &v, true), "FirstChildElement(" + v + ")");
    for (size_t j = 0; j < ch.size(); j++) {
      chk(ch[j]->NextSibling(v) == first(j + 1, 1, &v, false), "NextSibling(" + v + ")");
      chk(ch[j]->PreviousSibling(v) == first((long)j - 1, -1, &v, false), "PreviousSibling(" + v + ")");
      chk(ch[j]->NextSiblingElement(v) == first(j + 1, 1, &v, true), "NextSiblingElement(" + v + ")");
      chk(n->IterateChildren(v, ch[j]) == first(j + 1, 1, &v, false), "IterateChildren(" + v + ")");
    }
    chk(h.FirstChild(v).ToNode() == first(0, 1, &v, false), "Handle.FirstChild(" + v + ")");
  }
  int el = 0;
  for (size_t j = 0; j < ch.size(); j++) {
    chk(ch[j]->NextSiblingElement() == first(j + 1, 1, nullptr, true), "NextSiblingElement");
    chk(h.Child((int)j).ToNode() == ch[j], "Handle.Child");
    if (m.kids[j]->type == TiXmlNode::TINYXML_ELEMENT)
      chk(h.ChildElement(el++).ToNode() == ch[j], "Handle.ChildElement");
    m.kids[j]->parent = &m;
    ok &= compare(c, *m.kids[j], ch[j], n, doc, where);
  }
  chk(h.Child((int)ch.size()).ToNode() == 0, "Handle.Child behind the end");
  if (m.type == TiXmlNode::TINYXML_DOCUMENT)
    chk(static_cast<TiXmlDocument *>(n)->RootElement() == first(0, 1, nullptr, true), "RootElement");
  return ok;
}

static void preorder(M &m, std::vector<M *> &v) {
  v.push_back(&m);
  for (auto &k : m.kids)
    preorder(*k, v);
}
struct Tree {
  TiXmlDocument doc;
  P m = std::make_shared<M>();
  Tree(int start) {
    m->type = TiXmlNode::TINYXML_DOCUMENT;
    const char *t = start == 0 ? "" : start == 1 ? "<a/>" : start == 2 ? "<a x='1'><b/>t<a/></a>" : "<?xml version='1.0'?><!--c--><b><a><b y='2'/></a><a/>t</b><!u>";
    if (*t)
      doc.Parse(t);
    m = snapshot(&doc);
  }
};
// payloads: new nodes, or a clone of an existing node of the same tree
static TiXmlNode *payload(Tree &t, int k, P &model, bool &owned, const std::vector<M *> &nodes) {
  owned = true;
  TiXmlNode *n = nullptr;
  switch (k) {
  case 0:
    n = new TiXmlElement("a");
    n->ToElement()->SetAttribute("x", "1");
    break;
  case 1:
    n = new TiXmlText("t");
    break;
  case 2: {
    TiXmlElement *e = new TiXmlElement("b");
    e->LinkEndChild(new TiXmlElement("a"));
    e->LinkEndChild(new TiXmlText("t"));
    n = e;
    break;
  }
  case 3:
    n = new TiXmlDocument("d");
    break;
  case 4:
    n = new TiXmlComment(" c ");
    break;
  case 5:
    n = new TiXmlUnknown();
    n->SetValue("!u");
    break;
  case 6: {
    TiXmlText *x = new TiXmlText("raw <&>");
    x->SetCDATA(true);
    n = x;
    break;
  }
  case 7:
    n = new TiXmlDeclaration("1.0", "", "");
    break;
  default: { // existing node of the same tree: document, then the nodes in order
    size_t j = (size_t)(k - 8);
    if (j >= nodes.size())
      return nullptr;
    owned = false;
    model = clone(*nodes[j]);
    return nodes[j]->real;
  }
  }
  model = snapshot(n);
  return n;
}
struct Space {
  int parents, kids, payloads; // operand ranges
  uint64_t per() const { return (uint64_t)parents * kids; }
  // kinds: before, after, replace (parent, child, payload), end, link (parent, payload), remove (parent, child), clear, clone, setvalue (parent), addattr
  uint64_t size() const { return 3 * per() * payloads + 2 * (uint64_t)parents * payloads + 2 * per() + 5 * (uint64_t)parents; }
};
static S op(Tree &t, uint64_t o, const Space &sp, mc::Ctx &c, bool &skip) {
  std::vector<M *> nodes;
  preorder(*t.m, nodes);
  uint64_t per = sp.per(), n3 = 3 * per * sp.payloads, n2 = 2 * (uint64_t)sp.parents * sp.payloads;
  int kind, par, kid = 0, pay = 0;
  if (o < n3) {
    kind = (int)(o % 3), o /= 3;
    par = (int)(o % sp.parents), o /= sp.parents;
    kid = (int)(o % sp.kids), o /= sp.kids;
    pay = (int)o;
  } else if (o < n3 + n2) {
    o -= n3;
    kind = 3 + (int)(o % 2), o /= 2;
    par = (int)(o % sp.parents), o /= sp.parents;
    pay = (int)o;
  } else if (o < n3 + n2 + 2 * per) {
    o -= n3 + n2;
    kind = 5 + (int)(o % 2), o /= 2;
    par = (int)(o % sp.parents), o /= sp.parents;
    kid = (int)o;
  } else {
    o -= n3 + n2 + 2 * per;
    kind = 7 + (int)(o % 5);
    par = (int)(o / 5);
  }
  // the last payload numbers mean existing nodes: document, first node, ...
  S what;
  if ((size_t)par >= nodes.size()) {
    skip = true;
    return "";
  }
  M *pm = nodes[par];
  TiXmlNode *pn = pm->real;
  if (kind < 8 && pm->type != TiXmlNode::TINYXML_ELEMENT && pm->type != TiXmlNode::TINYXML_DOCUMENT) {
    skip = true; // only documents and elements have children
    return "";
  }
  auto kidof = [&](int i) -> M * {
    if (pm->kids.empty())
      return nullptr;
    // 0 first, 1 last, 2.. in between
    size_t k = i == 0 ? 0 : i == 1 ? pm->kids.size() - 1 : (size_t)i - 1;
    if ((i == 1 && pm->kids.size() < 2) || k >= pm->kids.size() || (i > 1 && k == pm->kids.size() - 1))
      return nullptr;
    return pm->kids[k].get();
  };
  auto indexof = [&](M *k) {
    size_t i = 0;
    while (pm->kids[i].get() != k)
      i++;
    return i;
  };
  if (kind <= 4) {
    M *km = kind <= 2 ? kidof(kid) : nullptr;
    if (kind <= 2 && !km) {
      skip = true;
      return "";
    }
    P model;
    bool owned;
    int plist[] = {0, 1, 2, 3, 8 + 1, 8 + 2, 8, 4, 5, 6, 7, 8 + 3};
    TiXmlNode *n = payload(t, plist[pay], model, owned, nodes);
    if (!n || (kind == 4 && !owned)) {
      skip = true;
      return "";
    }
    bool isdoc = model->type == TiXmlNode::TINYXML_DOCUMENT;
    t.doc.ClearError();
    TiXmlNode *r;
    static const char *nm[] = {"InsertBeforeChild", "InsertAfterChild", "ReplaceChild", "InsertEndChild", "LinkEndChild"};
    what = S(nm[kind]) + "(" + pm->value + (km ? ", " + km->value : S()) + ", " + model->value + ")";
    size_t at = km ? indexof(km) : 0;
    if (kind == 0)
      r = pn->InsertBeforeChild(km->real, *n);
    else if (kind == 1)
      r = pn->InsertAfterChild(km->real, *n);
    else if (kind == 2)
      r = pn->ReplaceChild(km->real, *n);
    else if (kind == 3)
      r = pn->InsertEndChild(*n);
    else {
      r = pn->LinkEndChild(n);
      owned = false;
    }
    if (owned)
      delete n;
    c.check("tree", (r == 0) == isdoc, what + " returns " + (r ? "a node" : "null"));
    c.check("tree", t.doc.Error() == isdoc, what + (isdoc ? " reports no error" : " reports an error"));
    if (!isdoc) {
      model->parent = pm;
      auto &v = pm->kids;
      if (kind == 0)
        v.insert(v.begin() + at, model);
      else if (kind == 1)
        v.insert(v.begin() + at + 1, model);
      else if (kind == 2)
        v[at] = model;
      else
        v.push_back(model);
      if (kind != 4 && r) // a copy was inserted
        c.check("tree", r != n, what + " inserts a copy");
    }
  } else if (kind == 5) { // remove
    M *km = kidof(kid);
    if (!km) {
      skip = true;
      return "";
    }
    what = "RemoveChild(" + pm->value + ", " + km->value + ")";
    c.check("tree", pn->RemoveChild(km->real), what + " fails");
    pm->kids.erase(pm->kids.begin() + indexof(km));
  } else if (kind == 6) { // operations with a node that is no child
    if (!kidof(kid) || kidof(kid)->kids.empty()) {
      skip = true;
      return "";
    }
    TiXmlNode *g = kidof(kid)->kids[0]->real;
    TiXmlElement e("zz");
    what = "operations with a grandchild of " + pm->value;
    c.check("tree", pn->InsertBeforeChild(g, e) == 0 && pn->InsertAfterChild(g, e) == 0 && pn->ReplaceChild(g, e) == 0 && pn->InsertBeforeChild(0, e) == 0 &&
                        pn->InsertAfterChild(0, e) == 0 && pn->ReplaceChild(0, e) == 0 && !pn->RemoveChild(0),
            what + " succeed");
  } else if (kind == 7) {
    what = "Clear(" + pm->value + ")";
    pn->Clear();
    pm->kids.clear();
  } else if (kind == 8) { // clone must be equal and independent
    what = "Clone(" + pm->value + ")";
    std::unique_ptr<TiXmlNode> q(pn->Clone());
    P w = clone(*pm);
    w->parent = nullptr;
    compare(c, *w, q.get(), nullptr, q->ToDocument(), what);
    q->Clear();
    if (TiXmlElement *e = q->ToElement()) {
      e->SetAttribute("x", "changed");
      e->SetValue("changed");
    }
  } else if (kind == 9) {
    what = "SetValue(" + pm->value + ")";
    pn->SetValue(pm->type == TiXmlNode::TINYXML_ELEMENT ? "b" : "t");
    pm->value = pm->type == TiXmlNode::TINYXML_ELEMENT ? "b" : "t";
  } else if (kind == 10) {
    TiXmlElement *e = pn->ToElement();
    if (!e) {
      skip = true;
      return "";
    }
    what = "SetAttribute(" + pm->value + ")";
    e->SetAttribute("z", "<&\"'>");
    bool f = false;
    for (auto &a : pm->attrs)
      if (a.first == "z")
        f = true;
    if (!f)
      pm->attrs.push_back({"z", "<&\"'>"});
  } else { // assignment of one node to another of the same type
    TiXmlElement *e = pn->ToElement();
    if (e) {
      what = "operator= on " + pm->value;
      TiXmlElement src("b");
      src.SetAttribute("q", "7");
      src.LinkEndChild(new TiXmlElement("a"));
      *e = src;
      P w = snapshot(&src);
      pm->value = w->value, pm->attrs = w->attrs, pm->kids = w->kids;
    } else if (TiXmlDocument *d = pn->ToDocument()) {
      what = "operator= on the document";
      TiXmlDocument src;
      src.Parse("<a><b/>t</a>");
      *d = src;
      P w = snapshot(&src);
      pm->value = w->value, pm->kids = w->kids;
    } else {
      skip = true;
      return "";
    }
  }
  return what;
}
static void relink(M &m) {
  for (auto &k : m.kids) {
    k->parent = &m;
    relink(*k);
  }
}
static void edits(uint64_t i, mc::Ctx &c, const Space &sp, int starts) {
  int start = (int)(i % starts);
  std::vector<int> ops = mc::seq(i / starts, sp.size());
  Tree t(start);
  S hist = "start " + std::to_string(start);
  for (size_t k = 0; k < ops.size(); k++) {
    bool skip = false;
    relink(*t.m);
    c.note = hist;
    S w = op(t, ops[k], sp, c, skip);
    if (skip) {
      c.skipped++;
      return; // shorter sequences are cases of their own
    }
    hist += "; " + w;
    if (c.replay)
      printf("%s\n", w.c_str());
    c.step();
    c.note.clear();
    if (!compare(c, *t.m, &t.doc, nullptr, &t.doc, hist))
      return;
    c.state(mc::mixs(0, text(*t.m)));
  }
}

// ------------------------------------------------------------- attributes
static void attrs(uint64_t i, mc::Ctx &c) {
  static const char *N[] = {"x", "y", "xx"};
  std::vector<int> ops = mc::seq(i, 16);
  std::unique_ptr<TiXmlElement> e(new TiXmlElement("a"));
  std::vector<std::pair<S, S>> m;
  auto set = [&](const S &n, const S &v) {
    for (auto &a : m)
      if (a.first == n) {
        a.second = v;
        return;
      }
    m.push_back({n, v});
  };
  for (int o : ops) {
    c.step();
    if (o < 3) {
      e->SetAttribute(N[o], "v");
      set(N[o], "v");
    } else if (o < 6) {
      e->SetAttribute(S(N[o - 3]), S("\"'<&>"));
      set(N[o - 3], "\"'<&>");
    } else if (o < 9) {
      e->RemoveAttribute(N[o - 6]);
      for (size_t k = 0; k < m.size(); k++)
        if (m[k].first == N[o - 6]) {
          m.erase(m.begin() + k);
          break;
        }
    } else if (o == 9) {
      e->SetAttribute("x", -12);
      set("x", "-12");
      int v = 0;
      c.check("attr", e->QueryIntAttribute("x", &v) == TIXML_SUCCESS && v == -12, "integer attribute");
    } else if (o == 10) {
      e->SetDoubleAttribute("y", 0.5);
      set("y", "0.5");
      double v = 0;
      c.check("attr", e->QueryDoubleAttribute("y", &v) == TIXML_SUCCESS && v == 0.5, "floating point attribute");
    } else if (o == 11) {
      e->SetAttribute("x", "");
      set("x", "");
    } else if (o == 12) { // replaced by a clone
      e.reset(e->Clone()->ToElement());
    } else if (o == 13) {
      TiXmlElement e2("q");
      e2.SetAttribute("w", "1");
      e2 = *e;
      *e = e2;
    } else if (o == 14) { // change through the attribute
      if (TiXmlAttribute *a = e->LastAttribute()) {
        a->SetValue("via");
        m.back().second = "via";
      }
    } else { // print and parse again
      S s;
      s << *e;
      std::unique_ptr<TiXmlElement> e2(new TiXmlElement("q"));
      TiXmlDocument d;
      d.Parse(s.c_str());
      c.check("attr", !d.Error() && d.RootElement(), "printed element parses: " + s);
      if (!d.RootElement())
        return;
      e.reset(d.RootElement()->Clone()->ToElement());
    }
    M w;
    w.type = TiXmlNode::TINYXML_ELEMENT;
    w.value = "a";
    w.attrs = m;
    S h = "attribute operations";
    for (int x : ops)
      h += " " + std::to_string(x);
    if (!compare(c, w, e.get(), nullptr, nullptr, h))
      return;
    for (const char *n : {"x", "y", "xx", "zz"}) {
      bool has = false;
      for (auto &a : m)
        has |= a.first == n;
      c.check("attr", (e->Attribute(n) != 0) == has && (e->Attribute(S(n)) != 0) == has, h + ": presence of " + n);
    }
    c.state(mc::mixs(0, text(w)));
  }
}

// ------------------------------------------------------------- text
static const std::vector<S> CH = {"&", "<", ">", "\"", "'", ";", "#", "x", "a", "&#x", "&amp;", " ", "]]>", "\n", "\t", "\r", "/", "=", "-->", "4", "&lt", "\x01", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "?>", "&#", "&quot;", "<!--", "<![CDATA[", "\x7f", "lt;", "\x1f"};
static S show(const S &s) {
  S o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch >= 127) {
      snprintf(b, sizeof b, "\\x%02x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o;
}
static S print(const TiXmlDocument &d, int how) {
  if (how == 0) {
    TiXmlPrinter p;
    d.Accept(&p);
    return p.Str();
  }
  if (how == 1) {
    S s;
    s << d;
    return s;
  }
  if (how == 2) {
    TiXmlPrinter p;
    p.SetIndent("\t");
    p.SetLineBreak("\r\n");
    d.Accept(&p);
    return p.Str();
  }
  if (how == 3) {
    std::ostringstream o;
    o << d;
    return o.str();
  }
  char *buf = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&buf, &n);
  d.Print(f);
  fclose(f);
  S s(buf, n);
  free(buf);
  return s;
}
static void parse(TiXmlDocument &d, const S &s, int how) {
  if (how == 0)
    d.Parse(s.c_str());
  else if (how == 1)
    d.Parse(s.c_str(), 0, TIXML_ENCODING_UTF8);
  else if (how == 2)
    d.Parse(s.c_str(), 0, TIXML_ENCODING_LEGACY);
  else {
    std::istringstream is(s);
    is >> d;
  }
}
static void roundtrip(mc::Ctx &c, const S &v, int deep) {
  c.step();
  c.state(mc::mixs(0, v));
  bool blank = v.find_first_not_of(" \t\n\r\v\f") == S::npos;
  // condensing changes white space by design; markup must survive
  bool condensable = v.empty() || v[0] == ' ' || v[v.size() - 1] == ' ' || v.find("  ") != S::npos;
  for (int shape = 0; shape < (deep ? 4 : 2); shape++)
    for (int pr = 0; pr < (deep ? 5 : 2); pr++)
      for (int pa = 0; pa < (deep ? 4 : 2); pa++)
        for (int cond = 1; cond >= (shape < 2 ? 0 : 1); cond--) {
          TiXmlBase::SetCondenseWhiteSpace(cond);
          TiXmlDocument d;
          if (shape == 1)
            d.LinkEndChild(new TiXmlDeclaration("1.0", pa == 2 ? "ISO-8859-1" : "UTF-8", ""));
          TiXmlElement *a = new TiXmlElement("a");
          d.LinkEndChild(a);
          a->SetAttribute("x", v);
          a->SetAttribute(S("y"), v + v);
          bool txt = !blank && !(cond && condensable);
          if (shape == 3) { // mixed content
            a->LinkEndChild(new TiXmlElement("b"));
            if (txt)
              a->LinkEndChild(new TiXmlText(v));
            a->LinkEndChild(new TiXmlElement("b"));
          } else if (txt) {
            TiXmlElement *p = a;
            if (shape == 2) {
              p = new TiXmlElement("b");
              p->SetAttribute("z", v);
              a->LinkEndChild(p);
            }
            p->LinkEndChild(new TiXmlText(v));
          }
          P want = snapshot(&d);
          for (int round = 0; round < (deep ? 2 : 1); round++) {
            S s = print(d, pr);
            TiXmlDocument e;
            parse(e, s, pa);
            P got = snapshot(&e);
            c.comparisons++;
            if (pa != 0 || e.Error() || text(*got) != text(*want)) {
              // texts are joined with nothing else, so the trees must agree exactly
              if (e.Error() || text(*got) != text(*want)) {
                c.fail("text", "value [" + show(v) + "] printed as [" + show(s) + "] is read back as " + show(text(*got)) + (e.Error() ? S(" with error ") + e.ErrorDesc() : S()));
                TiXmlBase::SetCondenseWhiteSpace(true);
                return;
              }
            }
            d = e;
          }
        }
  TiXmlBase::SetCondenseWhiteSpace(true);
}

static std::vector<mc::Family> make(bool thorough) {
  std::vector<mc::Family> F;
  auto add = [&](const char *n, Space sp, unsigned depth, int starts) {
    F.push_back({n, mc::nseq(sp.size(), depth) * starts, [sp, starts](uint64_t i, mc::Ctx &c) { edits(i, c, sp, starts); }, [sp, starts](uint64_t i) {
                   S s = "start " + std::to_string(i % starts) + " operations";
                   for (int o : mc::seq(i / starts, sp.size()))
                     s += " " + std::to_string(o);
                   return s;
                 }});
  };
  add("edits-all-operands", Space{5, 4, 12}, 1, 4);
  add("edits-2", Space{3, 2, 5}, 2, 4);
  add("edits-3", Space{2, 2, 2}, 3, 3);
  if (thorough) {
    add("edits-2-wide", Space{5, 3, 8}, 2, 4);
    add("edits-3-wide", Space{3, 2, 4}, 3, 3);
    add("edits-4", Space{2, 2, 1}, 4, 2);
  }
  F.push_back({"attributes", mc::nseq(16, thorough ? 5 : 4), attrs, nullptr});
  auto txt = [](unsigned deep) {
    return [deep](uint64_t i, mc::Ctx &c) {
      S v;
      for (int k : mc::seq(i, CH.size()))
        v += CH[k];
      roundtrip(c, v, deep);
    };
  };
  auto des = [](uint64_t i) {
    S v;
    for (int k : mc::seq(i, CH.size()))
      v += CH[k];
    return "text [" + show(v) + "]";
  };
  // names which agree in all but one place, or of which one begins with the other
  static const int LEN[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 30, 31, 32, 33, 34, 40, 48, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537};
  const uint64_t nlen = sizeof LEN / sizeof *LEN;
  F.push_back({"similar-names", nlen * 9 * 2, [](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int how = d.pick(9), first = d.pick(2);
                 int n = LEN[d.v];
                 S a, b;
                 for (int k = 0; k < n; k++)
                   a += (char)('a' + k % 23);
                 b = a;
                 int at = how == 0 ? 0 : how == 1 ? n - 1 : how == 2 ? n / 2 : how == 3 ? n / 4 : how == 4 ? n - 1 - n / 4 : -1;
                 if (at >= 0)
                   b[at] = 'Z';
                 else if (how == 5)
                   b += "x";
                 else if (how == 6)
                   b += a;
                 else if (how == 7)
                   b = "x" + a;
                 else
                   b[n - 1] = (char)toupper(b[n - 1]);
                 if (first)
                   std::swap(a, b);
                 S w = "names of length " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ", difference " + std::to_string(how);
                 auto str = [](const char *p) { return p ? S(p) : S("(none)"); };
                 c.state(mc::mix(i, 17));
                 { // attributes
                   TiXmlElement e("e");
                   e.SetAttribute(a, "1");
                   c.eq("names", str(e.Attribute(b.c_str())), "(none)", w + ": absent attribute");
                   c.check("names", e.Attribute(b) == nullptr, w + ": absent attribute");
                   e.SetAttribute(b.c_str(), "2");
                   e.SetAttribute(S("other"), S("3"));
                   c.step(3);
                   for (int k = 0; k < 2; k++) {
                     c.eq("names", str(e.Attribute(a.c_str())), k ? "4" : "1", w + ": first attribute");
                     c.eq("names", str(e.Attribute(b.c_str())), "2", w + ": second attribute");
                     c.check("names", e.Attribute(a) && *e.Attribute(a) == (k ? "4" : "1") && e.Attribute(b) && *e.Attribute(b) == "2", w + ": attributes by std::string");
                     int x = 0;
                     double y = 0;
                     c.check("names", e.QueryIntAttribute(b.c_str(), &x) == TIXML_SUCCESS && x == 2 && e.QueryDoubleAttribute(a.c_str(), &y) == TIXML_SUCCESS && y == (k ? 4 : 1), w + ": numbers of attributes");
                     e.SetAttribute(a.c_str(), 4);
                   }
                   int num = 0;
                   for (const TiXmlAttribute *p = e.FirstAttribute(); p; p = p->Next())
                     num++;
                   c.eqi("names", num, 3, w + ": number of attributes");
                   TiXmlDocument doc, back;
                   doc.InsertEndChild(e);
                   S t = print(doc, 0);
                   parse(back, t, 0);
                   c.check("names", !back.Error() && text(*snapshot(&back)) == text(*snapshot(&doc)), w + ": attributes read back");
                   e.RemoveAttribute(b.c_str());
                   c.eq("names", str(e.Attribute(b.c_str())), "(none)", w + ": removed attribute");
                   c.eq("names", str(e.Attribute(a.c_str())), "4", w + ": kept attribute");
                   c.step(3);
                 }
                 { // elements and other nodes
                   TiXmlDocument doc;
                   TiXmlElement *r = new TiXmlElement("r"), *x[4];
                   doc.LinkEndChild(r);
                   for (int k = 0; k < 4; k++) {
                     x[k] = new TiXmlElement(k == 1 || k == 2 ? b : a);
                     r->LinkEndChild(x[k]);
                   }
                   c.step(5);
                   c.check("names", r->FirstChild(a) == x[0] && r->FirstChild(b.c_str()) == x[1] && r->LastChild(b) == x[2] && r->LastChild(a.c_str()) == x[3], w + ": first and last child by name");
                   c.check("names", r->FirstChildElement(b) == x[1] && r->FirstChildElement(a.c_str()) == x[0] && x[0]->NextSiblingElement(a) == x[3] && x[0]->NextSiblingElement(b.c_str()) == x[1] && x[1]->NextSiblingElement(b) == x[2] && !x[2]->NextSiblingElement(b), w + ": elements by name");
                   c.check("names", x[0]->NextSibling(a.c_str()) == x[3] && x[3]->PreviousSibling(a) == x[0] && x[2]->PreviousSibling(b.c_str()) == x[1] && !x[1]->PreviousSibling(b), w + ": siblings by name");
                   c.check("names", r->IterateChildren(b, nullptr) == x[1] && r->IterateChildren(b, x[1]) == x[2] && !r->IterateChildren(b, x[2]) && r->IterateChildren(a.c_str(), x[0]) == x[3], w + ": iteration by name");
                   TiXmlHandle h(&doc);
                   c.check("names", h.FirstChild("r").Child(b, 1).ToNode() == x[2] && h.FirstChild("r").ChildElement(a.c_str(), 1).ToElement() == x[3] && !h.FirstChild("r").ChildElement(b, 2).ToElement(), w + ": handles by name");
                   TiXmlDocument back;
                   parse(back, print(doc, 0), 0);
                   c.check("names", !back.Error() && text(*snapshot(&back)) == text(*snapshot(&doc)), w + ": elements read back");
                 }
               },
               nullptr});
  F.push_back({"empty-text", 1, [](uint64_t, mc::Ctx &c) { roundtrip(c, "", true); }, nullptr});
  F.push_back({"text", mc::nseq(CH.size(), thorough ? 3 : 2), txt(1), des});
  F.push_back({"text-long", mc::nseq(CH.size(), thorough ? 4 : 3), txt(0), des});
  F.push_back({"bytes", 255, [](uint64_t i, mc::Ctx &c) {
                 // every byte, in documents of unknown and legacy encoding
                 for (const S &v : {S(1, (char)(i + 1)), "a" + S(1, (char)(i + 1)) + "b", "&" + S(1, (char)(i + 1)), "\xe9" + S(1, (char)(i + 1)) + "<"}) {
                   c.step();
                   for (int pr = 0; pr < 5; pr++)
                     for (int pa : {0, 2}) {
                       TiXmlDocument d;
                       TiXmlElement *a = new TiXmlElement("a");
                       d.LinkEndChild(a);
                       a->SetAttribute("x", v);
                       if (v.find_first_not_of(" \t\n\r\v\f") != S::npos)
                         a->LinkEndChild(new TiXmlText(v[0] == ' ' ? "." + v + "." : v));
                       P want = snapshot(&d);
                       TiXmlDocument e;
                       if (want->kids[0]->kids.size() && want->kids[0]->kids[0]->value.back() == ' ')
                         continue;
                       parse(e, print(d, pr), pa);
                       c.check("text", text(*snapshot(&e)) == text(*want), "byte " + std::to_string(i + 1) + " in [" + show(v) + "] is read back as " + show(text(*snapshot(&e))));
                     }
                 }
               },
               nullptr});
  return F;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, make); }
