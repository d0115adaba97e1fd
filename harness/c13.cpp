// C13: the XML reader is memory-safe and terminates on every input.
// Built with address and undefined-behaviour sanitizers; hangs are found by the driver's watchdog.
#include "doc.hpp"
#include "hist.hpp"
#include "tinyxml.h"
#include <memory>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#include <sys/resource.h>
#include <unistd.h>

typedef std::string S;
static long g_live = 0;
static bool g_count = false;
static void on_malloc(const volatile void *, size_t) {
  if (g_count)
    g_live++;
}
static void on_free(const volatile void *p) {
  if (g_count && p)
    g_live--;
}
static void hooks() {
  static bool done = false;
  if (!done) {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    done = true;
  }
}
static S show(const S &s) {
  S o;
  for (unsigned char c : s.substr(0, 900)) {
    char b[8];
    if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

// what was read must be a complete, traversable tree
static size_t walk(const TiXmlNode *n, int depth) {
  size_t k = n->ValueStr().size();
  if (const TiXmlElement *e = n->ToElement())
    for (const TiXmlAttribute *a = e->FirstAttribute(); a; a = a->Next())
      k += strlen(a->Name()) + a->ValueStr().size();
  const TiXmlNode *prev = nullptr;
  for (const TiXmlNode *ch = n->FirstChild(); ch; ch = ch->NextSibling()) {
    if (ch->Parent() != n || ch->PreviousSibling() != prev)
      return (size_t)-1;
    size_t w = walk(ch, depth + 1);
    if (w == (size_t)-1)
      return w;
    k += w;
    prev = ch;
  }
  return n->LastChild() == prev ? k : (size_t)-1;
}
static void outcome(mc::Ctx &c, TiXmlDocument &d, const S &in, const char *how) {
  size_t k = walk(&d, 0);
  if (k == (size_t)-1)
    c.fail("tree", S(how) + " leaves an inconsistent tree for: " + show(in));
  else if (k > 2 * in.size() + 64)
    c.fail("tree", S(how) + " makes up content for: " + show(in));
  c.comparisons++;
  if (!d.Error() && !d.FirstChild())
    c.fail("outcome", S(how) + " reports neither a document nor an error for: " + show(in));
  if (d.Error() && (d.ErrorId() <= 0 || !*d.ErrorDesc()))
    c.fail("outcome", S(how) + " reports an error without description for: " + show(in));
}
enum { P_PARSE = 1, P_UTF8 = 2, P_LEGACY = 4, P_STREAM = 8, P_FILE = 16, P_URDF = 32, P_KIN = 64, P_KEEP = 128 };

static void one(mc::Ctx &c, const S &in, int how) {
  c.step();
  c.state(mc::mixs(0, in));
  hooks();
  if (c.replay)
    printf("input (%zu bytes): %s\n", in.size(), show(in).c_str()), fflush(stdout);
  long before = g_live;
  g_count = true;
  S err;
  {
    if (how & (P_PARSE | P_UTF8 | P_LEGACY)) {
      std::unique_ptr<char[]> buf(new char[in.size() + 1]); // exactly as long as the text
      memcpy(buf.get(), in.c_str(), in.size() + 1);
      if (how & P_PARSE) {
        TiXmlDocument d;
        d.Parse(buf.get());
        outcome(c, d, in, "Parse");
      }
      if (how & P_UTF8) {
        TiXmlDocument d;
        d.Parse(buf.get(), 0, TIXML_ENCODING_UTF8);
        outcome(c, d, in, "Parse(UTF8)");
      }
      if (how & P_LEGACY) {
        TiXmlDocument d;
        d.SetTabSize(0);
        d.Parse(buf.get(), 0, TIXML_ENCODING_LEGACY);
        outcome(c, d, in, "Parse(legacy)");
      }
      if (how & P_KEEP) {
        TiXmlBase::SetCondenseWhiteSpace(false);
        TiXmlDocument d;
        d.Parse(buf.get(), 0, TIXML_ENCODING_UTF8);
        TiXmlBase::SetCondenseWhiteSpace(true);
        outcome(c, d, in, "Parse(keeping white space)");
      }
    }
    if (how & P_STREAM) {
      std::istringstream is(in);
      TiXmlDocument d;
      is >> d;
      outcome(c, d, in, "operator>>");
    }
    if ((how & P_FILE) && in.size()) {
      S copy = in;
      FILE *f = fmemopen(&copy[0], copy.size(), "r");
      TiXmlDocument d;
      d.LoadFile(f);
      fclose(f);
      outcome(c, d, in, "LoadFile");
    }
    if (how & P_URDF) {
      try {
        urdf::ModelInterfaceSharedPtr m = urdf::parseURDF(in);
        if (m)
          for (auto &l : m->links_)
            if (!l.second)
              err = "null link";
      } catch (const std::exception &) {
      }
    }
    if (how & P_KIN) {
      try {
        tinyfk::KinematicModel m(in);
        tinyfk::Transform t;
        for (size_t i = 0; i < m.links_.size(); i++)
          m.get_link_pose(i, t);
      } catch (const std::exception &) {
      }
    }
  }
  g_count = false;
  if (!err.empty())
    c.fail("tree", err + ": " + show(in));
  c.comparisons++;
  if (g_live != before) {
    long d = g_live - before;
    c.fail("leak", std::to_string(d) + " blocks leaked for: " + show(in));
    g_live = before;
  }
}

static const std::vector<S> TOK = {"<", ">", "/", "a", "=", "\"", "'", " ", "&", ";", "#", "x", "1", "!", "-", "[CDATA[", "]]>", "?", "<?xml ", "\n",
                                   "\xc3", "\xe2", "\xef", "\xf0", "\xff", "\xbf", "<!--", "</a>", "&amp;", "\xef\xbb\xbf", "encoding=", S("\0", 1), "\r", "UTF-8", "--", "\t", "0", "&#"};
static const S DU = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", DL = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>";
struct Context {
  S pre, post;
};
static const std::vector<Context> CTX = {
    {"", ""},
    {DU + "<a>", "</a>"},
    {DU + "<a b=\"", "\"/>"},
    {DU + "<a b='", "'/>"},
    {DU + "<a ", ">t</a>"},
    {DL + "<a>", "</a>"},
    {DL + "<a b=\"", "\"></a>"},
    {DU + "<!--", "--><a/>"},
    {DU + "<a><![CDATA[", "]]></a>"},
    {"<?xml ", "?><a/>"},
    {"<a>t", "<b/></a>"},
    {DU + "<", ">"},
    {DU + "<a>&", ";</a>"},
    {DU + "<a b=\"&#x", ";\"/>"},
    {"<!", "><a/>"},
    {DU + "<a b=1><c/>", "</a>\n"},
    {"<robot name=\"r\"><link name=\"", "\"/></robot>"},
    {DU + "<robot name=\"r\"><link name=\"l\">", "</link></robot>"},
};
static S join(const std::vector<int> &s) {
  S r;
  for (int i : s)
    r += TOK[i];
  return r;
}

static std::vector<mc::Family> make(bool thorough) {
  std::vector<mc::Family> F;
  const size_t NT = TOK.size();
  // every string of tokens, in every context, open and closed
  {
    unsigned depth = thorough ? 3 : 2;
    uint64_t n = mc::nseq(NT, depth) * CTX.size() * 2;
    auto dec = [NT](uint64_t i, int &ctx) {
      ctx = (int)(i % (CTX.size() * 2));
      return join(mc::seq(i / (CTX.size() * 2), NT));
    };
    F.push_back({"tokens", n,
                 [dec](uint64_t i, mc::Ctx &c) {
                   int k;
                   S s = dec(i, k);
                   const Context &x = CTX[k / 2];
                   one(c, x.pre + s + (k % 2 ? x.post : ""), 255);
                 },
                 [dec](uint64_t i) {
                   int k;
                   S s = dec(i, k);
                   return show(CTX[k / 2].pre + s + (k % 2 ? CTX[k / 2].post : ""));
                 }});
    // without context, deeper; and in the two most productive contexts
    unsigned d2 = thorough ? 4 : 3;
    auto plain = [NT, d2](int ctx, bool closed) {
      return [NT, ctx, closed](uint64_t i, mc::Ctx &c) {
        S s = join(mc::seq(i, NT));
        one(c, CTX[ctx].pre + s + (closed ? CTX[ctx].post : ""), P_PARSE | P_UTF8 | P_STREAM);
      };
    };
    F.push_back({"document", mc::nseq(NT, d2), plain(0, false), nullptr});
    F.push_back({"in-text", mc::nseq(NT, d2), plain(1, true), nullptr});
    F.push_back({"in-tag", mc::nseq(NT, d2), plain(4, true), nullptr});
    F.push_back({"in-value", mc::nseq(NT, d2), plain(2, false), nullptr});
  }
  // every pair (triple) of bytes in every context
  {
    auto bytes = [](uint64_t i, int n) {
      S s;
      for (int k = 0; k < n; k++, i /= 256)
        s += (char)(i % 256);
      return s;
    };
    const std::vector<int> cs = {0, 1, 2, 4, 11, 12, 13};
    F.push_back({"bytes", 65536 * (uint64_t)(thorough ? cs.size() : 2) * 2,
                 [bytes, cs](uint64_t i, mc::Ctx &c) {
                   S s = bytes(i, 2);
                   i /= 65536;
                   const Context &x = CTX[cs[i / 2]];
                   one(c, x.pre + s + (i % 2 ? x.post : ""), P_PARSE | P_UTF8);
                 },
                 nullptr});
    if (!thorough)
      F.push_back({"byte", 256 * cs.size() * 2,
                   [bytes, cs](uint64_t i, mc::Ctx &c) {
                     S s = bytes(i, 1);
                     i /= 256;
                     const Context &x = CTX[cs[i / 2]];
                     one(c, x.pre + s + (i % 2 ? x.post : ""), 255);
                   },
                   nullptr});
  }
  // robot descriptions: every cut, every byte replaced, removed, doubled
  {
    auto docs = std::make_shared<std::vector<S>>();
    for (int b = 0; b < 5; b++) {
      auto m0 = doc::make_doc(b, doc::SEM | doc::FMT, {});
      docs->push_back(m0.text);
      docs->push_back(DU + m0.text);
      docs->push_back(DL + m0.text);
    }
    auto starts = std::make_shared<std::vector<uint64_t>>();
    uint64_t n = 0;
    for (auto &d : *docs) {
      starts->push_back(n);
      n += d.size();
    }
    auto find = [docs, starts](uint64_t i, size_t &pos) -> const S & {
      size_t k = docs->size() - 1;
      while ((*starts)[k] > i)
        k--;
      pos = i - (*starts)[k];
      return (*docs)[k];
    };
    F.push_back({"cuts", n,
                 [find](uint64_t i, mc::Ctx &c) {
                   size_t p;
                   const S &d = find(i, p);
                   one(c, d.substr(0, p), P_PARSE | P_UTF8 | P_STREAM | P_URDF | P_KIN);
                   one(c, d.substr(0, p) + "\xf0", P_UTF8 | P_URDF);
                   one(c, d.substr(p), P_UTF8 | P_URDF);
                 },
                 nullptr});
    S reps = thorough ? S("<>/=\"'& ;#a1-!?\n\xc3\xef\xf0\xff\0.e", 23) : S("<>/\"& \xc3\xef\xf0\0-", 11);
    F.push_back({"mutations", n * (reps.size() + 2),
                 [find, reps](uint64_t i, mc::Ctx &c) {
                   size_t p;
                   size_t r = i % (reps.size() + 2);
                   S d = find(i / (reps.size() + 2), p);
                   if (r < reps.size())
                     d[p] = reps[r];
                   else if (r == reps.size())
                     d.erase(p, 1);
                   else
                     d.insert(p, 1, d[p]);
                   one(c, d, P_UTF8 | P_URDF | (c.thorough ? P_PARSE | P_STREAM | P_KIN : 0));
                 },
                 nullptr});
    // values: every value of a list at every attribute
    const std::vector<S> vals = {"", " ", "nan", "inf", "-inf", "1e999", "1e-999", "0x10", "1 2 3 4 5 6 7 8 9", "99999999999999999999", "-", "+", ".", "\xff", "1\xc3", S(5000, '1'), S(3000, ' '), "&#0;", "&#x10ffff;", "&#xffffffffffff;", "%s%n", "base", "l0", "\t1\n2\r3"};
    auto slots = std::make_shared<std::vector<std::pair<int, size_t>>>();
    for (size_t k = 0; k < docs->size(); k += 3) {
      const S &d = (*docs)[k];
      for (size_t p = 0; (p = d.find("=\"", p)) != S::npos; p += 2)
        slots->push_back({(int)k, p + 2});
    }
    F.push_back({"values", slots->size() * vals.size(),
                 [docs, slots, vals](uint64_t i, mc::Ctx &c) {
                   auto sl = (*slots)[i / vals.size()];
                   S d = (*docs)[sl.first];
                   size_t e = d.find('"', sl.second);
                   d = d.substr(0, sl.second) + vals[i % vals.size()] + d.substr(e);
                   one(c, d, P_URDF | P_KIN);
                   one(c, DU + d, P_URDF);
                 },
                 nullptr});
  }
  // repeated patterns: time grows slowly with the length
  {
    struct Rep {
      int ctx;
      S unit;
    };
    auto reps = std::make_shared<std::vector<Rep>>();
    for (int k : {0, 1, 2, 4, 5, 7, 8, 9, 11, 12, 13, 14})
      for (uint64_t i = 0; i < mc::nseq(NT, thorough ? 2 : 1); i++)
        reps->push_back({k, join(mc::seq(i, NT))});
    for (int k : {0, 1, 2, 4, 9})
      for (const S &u : {S("&#x"), S("&#1"), S("&#x1"), S("<a>"), S("<a/>"), S("<a b='1'>"), S("a='1' "), S("&lt;"), S("<!--"), S("<![CDATA["), S("<?xml"), S("<?xml "), S("\xef\xbf\xbe"), S("\xc3\xa9"), S("x=1 "), S("]]"), S("-"), S("version=1 "), S("&#49;")})
        reps->push_back({k, u});
    F.push_back({"growth", reps->size() * 2,
                 [reps](uint64_t i, mc::Ctx &c) {
                   const Rep &r = (*reps)[i / 2];
                   if (r.unit[0] == 0)
                     return;
                   bool nests = r.unit.find('<') != S::npos;
                   size_t n = nests ? 900 : 30000;
                   S s;
                   for (size_t k = 0; k < n; k++)
                     s += r.unit;
                   S in = CTX[r.ctx].pre + s + (i % 2 ? CTX[r.ctx].post : "");
                   auto cpu = [] {
                     struct rusage u;
                     getrusage(RUSAGE_SELF, &u);
                     return u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec);
                   };
                   c.note = "time growth";
                   double t = cpu();
                   one(c, in, P_PARSE);
                   one(c, in, P_UTF8);
                   one(c, in, P_URDF);
                   t = cpu() - t;
                   if (t > 10)
                     c.fail("time", "parsing " + std::to_string(in.size()) + " bytes takes " + std::to_string(t) + " s: " + show(in));
                 },
                 [reps](uint64_t i) { return show(CTX[(*reps)[i / 2].ctx].pre + (*reps)[i / 2].unit + "..."); }});
  }
  return F;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, make); }
