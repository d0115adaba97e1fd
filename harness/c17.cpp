// C17, part 1: operations on two models interleaved in one thread.
#include "mc.hpp"
#include "c17ops.hpp"
using namespace ops;

// events of one model: build, operations, destroy
static void perform(Actor &a, const std::vector<int> &script, size_t k) {
  if (k == 0)
    a.build();
  else if (k <= script.size())
    a.run(script[k - 1]);
  else
    a.destroy();
}
static Obs alone(int txt, const std::vector<int> &s) {
  static std::map<std::pair<int, std::vector<int>>, Obs> memo;
  auto key = std::make_pair(txt, s);
  auto it = memo.find(key);
  if (it != memo.end())
    return it->second;
  Actor a(txt);
  for (size_t k = 0; k < s.size() + 2; k++)
    perform(a, s, k);
  return memo[key] = a.o;
}
static void pair(mc::Ctx &c, int ta, int tb, const std::vector<int> &sa, const std::vector<int> &sb) {
  Obs wa = alone(ta, sa), wb = alone(tb, sb);
  size_t na = sa.size() + 2, nb = sb.size() + 2;
  // every interleaving: choose which of the na+nb steps belong to the first
  std::vector<int> sel(na + nb, 0);
  std::fill(sel.begin() + nb, sel.end(), 1);
  do {
    Actor a(ta), b(tb);
    size_t ka = 0, kb = 0;
    for (int x : sel)
      if (x)
        perform(a, sa, ka++);
      else
        perform(b, sb, kb++);
    c.step(na + nb);
    c.comparisons += a.o.n + b.o.n;
    for (int which = 0; which < 2; which++) {
      const Obs &g = which ? b.o : a.o, &w = which ? wb : wa;
      const auto &s = which ? sb : sa;
      for (int k = 0; k < g.n; k++)
        if (g.h[k] != w.h[k]) {
          std::string o;
          for (int x : sel)
            o += x ? 'A' : 'B';
          std::string la, lb;
          for (int x : sa)
            la += std::string(" ") + name(x) + ",";
          for (int x : sb)
            lb += std::string(" ") + name(x) + ",";
          c.fail("calls", std::string("model ") + (which ? "B" : "A") + ", step " + std::to_string(k) + " (" + (k == 0 ? "build" : k <= (int)s.size() ? name(s[k - 1]) : "destroy") +
                              ") answers differently than alone; A: build," + la + " destroy; B: build," + lb + " destroy; texts " + std::to_string(ta) + " and " + std::to_string(tb) + "; order " + o);
          return;
        }
    }
    uint64_t h = 1;
    for (int x : sel)
      h = h * 2 + x;
    h = mc::mix(h, ta * 10 + tb);
    for (int x : sa)
      h = mc::mix(h, x);
    h = mc::mix(h, 99);
    for (int x : sb)
      h = mc::mix(h, x);
    c.state(h);
  } while (std::next_permutation(sel.begin(), sel.end()));
}
static std::vector<mc::Family> make(bool thorough) {
  std::vector<mc::Family> F;
  auto add = [&](const char *nm, unsigned la, unsigned lb, std::vector<std::pair<int, int>> texts, std::vector<int> al) {
    uint64_t n = mc::ipow(al.size(), la) * mc::ipow(al.size(), lb) * texts.size();
    F.push_back({nm, n,
                 [la, lb, texts, al](uint64_t i, mc::Ctx &c) {
                   mc::Digits d(i);
                   auto t = texts[d.pick(texts.size())];
                   std::vector<int> sa, sb;
                   for (unsigned k = 0; k < la; k++)
                     sa.push_back(al[d.pick(al.size())]);
                   for (unsigned k = 0; k < lb; k++)
                     sb.push_back(al[d.pick(al.size())]);
                   pair(c, t.first, t.second, sa, sb);
                 },
                 [la, lb, texts, al](uint64_t i) {
                   mc::Digits d(i);
                   auto t = texts[d.pick(texts.size())];
                   std::string s = "texts " + std::to_string(t.first) + "," + std::to_string(t.second) + " A:";
                   for (unsigned k = 0; k < la; k++)
                     s += std::string(" ") + name(al[d.pick(al.size())]) + ",";
                   s += " B:";
                   for (unsigned k = 0; k < lb; k++)
                     s += std::string(" ") + name(al[d.pick(al.size())]) + ",";
                   return s;
                 }});
  };
  std::vector<int> all;
  for (int i = 0; i < NOPS; i++)
    all.push_back(i);
  std::vector<std::pair<int, int>> tt;
  for (int a = 0; a < NTEXT; a++)
    for (int b = 0; b < NTEXT; b++)
      tt.push_back({a, b});
  add("calls-1-1", 1, 1, tt, all);
  add("calls-2-1", 2, 1, {{0, 0}, {0, 1}}, all);
  add("calls-2-2", 2, 2, thorough ? std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {2, 3}, {2, 2}} : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}}, thorough ? all : std::vector<int>{0, 2, 3, 5, 6, 10});
  if (thorough)
    add("calls-3-3", 3, 3, {{0, 0}}, {1, 3, 5, 10});
  return F;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, make); }
