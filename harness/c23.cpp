// C23: the bounded stack and the cache container behave as their abstract types.
#include "mc.hpp"
#include <cstddef>
#include <string>
#include <vector>
#include "data_structure.hpp"
#include <map>

template <class T> struct Val;
template <> struct Val<int> {
  static int at(int k) { return 100 + k; }
};
template <> struct Val<std::string> {
  static std::string at(int k) { return std::string(40, 'a') + std::to_string(k); }
};
struct Big {
  double d[7] = {0, 0, 0, 0, 0, 0, 0};
  int id = -1;
  bool operator==(const Big &o) const {
    for (int i = 0; i < 7; i++)
      if (d[i] != o.d[i])
        return false;
    return id == o.id;
  }
};
template <> struct Val<Big> {
  static Big at(int k) {
    Big b;
    b.id = k;
    for (int i = 0; i < 7; i++)
      b.d[i] = k * 1.5 + i;
    return b;
  }
};

// operations on a stack of capacity cap: push, pop, write through top, reset, copy, assign from a copy
template <class T> static void stack_case(mc::Ctx &c, int cap, const std::vector<int> &ops) {
  typedef tinyfk::SizedStack<T> S;
  std::vector<S> ss(1, S(cap));
  std::vector<std::vector<T>> ref(1); // ref[i] is the content of ss[i]
  int fresh = 0;
  uint64_t h = cap;
  auto observe = [&]() {
    for (size_t i = 0; i < ss.size(); i++) {
      const S &s = ss[i];
      c.eqi("size", s.size(), ref[i].size(), "stack size");
      c.eqi("empty", s.empty(), ref[i].empty(), "stack emptiness");
      if (!ref[i].empty())
        c.check("top", s.top() == ref[i].back(), "top of the stack");
    }
  };
  observe();
  for (int o : ops) {
    S &s = ss[0];
    std::vector<T> &r = ref[0];
    h = mc::mix(h, o);
    switch (o) {
    case 0:
    case 1:
      if ((int)r.size() >= cap) {
        c.skipped++;
        return;
      }
      s.push(Val<T>::at(o == 0 ? fresh : 7));
      r.push_back(Val<T>::at(o == 0 ? fresh++ : 7));
      break;
    case 2:
      if (r.empty()) {
        c.skipped++;
        return;
      }
      s.pop();
      r.pop_back();
      break;
    case 3:
      if (r.empty()) {
        c.skipped++;
        return;
      }
      s.top() = Val<T>::at(50 + fresh);
      r.back() = Val<T>::at(50 + fresh++);
      break;
    case 4:
      s.reset();
      r.clear();
      break;
    case 5: { // a copy that stays behind and must not change
      S k(s);
      std::vector<T> kr(r);
      ss.push_back(k);
      ref.push_back(kr);
      break;
    }
    case 6: { // continue on the last copy
      if (ss.size() < 2) {
        c.skipped++;
        return;
      }
      std::swap(ss[0], ss.back());
      std::swap(ref[0], ref.back());
      break;
    }
    }
    c.step();
    observe();
  }
  // the whole content, from the top down
  for (size_t i = 0; i < ss.size(); i++)
    while (!ref[i].empty()) {
      c.check("content", ss[i].size() == ref[i].size() && ss[i].top() == ref[i].back(), "content of the stack");
      ss[i].pop();
      ref[i].pop_back();
      c.check("content", ss[i].empty() == ref[i].empty(), "emptiness while unwinding");
    }
  c.state(h);
}

// operations on a cache: store (two values) at any id, clear, extend, copy, use the copy
template <class T> static void cache_case(mc::Ctx &c, int size, int nid, const std::vector<int> &ops, bool dflt) {
  typedef tinyfk::SizedCache<T> S;
  std::vector<S> ss(1, dflt ? S() : S(size));
  typedef std::vector<std::pair<bool, T>> R;
  std::vector<R> ref(1, R(dflt ? 0 : size, {false, T()}));
  uint64_t h = size * 2 + dflt;
  auto observe = [&]() {
    for (size_t i = 0; i < ss.size(); i++)
      for (int k = 0; k < (int)ref[i].size(); k++) {
        const T *p = ss[i].get_cache(k);
        c.check("get", ref[i][k].first ? p && *p == ref[i][k].second : p == nullptr, "cached value of id " + std::to_string(k) + " of " + std::to_string(ref[i].size()));
      }
  };
  observe();
  for (int o : ops) {
    S &s = ss[0];
    R &r = ref[0];
    h = mc::mix(h, o);
    if (o < nid * 2) {
      int id = o / 2, v = o % 2;
      if (id >= (int)r.size()) {
        c.skipped++;
        return;
      }
      s.set_cache(id, Val<T>::at(v * 10 + id));
      r[id] = {true, Val<T>::at(v * 10 + id)};
    } else
      switch (o - nid * 2) {
      case 0:
        s.clear();
        for (auto &x : r)
          x.first = false;
        break;
      case 1:
        s.extend();
        r.push_back({false, T()});
        for (auto &x : r)
          x.first = false;
        break;
      case 2: {
        S k(s);
        R kr(r);
        ss.push_back(k);
        ref.push_back(kr);
        break;
      }
      case 3:
        if (ss.size() < 2) {
          c.skipped++;
          return;
        }
        std::swap(ss[0], ss.back());
        std::swap(ref[0], ref.back());
        break;
      }
    c.step();
    observe();
  }
  c.state(h);
}

template <class T> static void add(std::vector<mc::Family> &f, const std::string &name, int sd, int cd) {
  uint64_t n = mc::nseq(7, sd);
  for (int cap = 0; cap <= 4; cap++)
    f.push_back({"stack-" + name + "-" + std::to_string(cap), n, [=](uint64_t i, mc::Ctx &c) { stack_case<T>(c, cap, mc::seq(i, 7)); },
                 [=](uint64_t i) {
                   std::string s;
                   static const char *on[] = {"push", "push7", "pop", "top=", "reset", "copy", "swap"};
                   for (int o : mc::seq(i, 7))
                     s += std::string(on[o]) + " ";
                   return s;
                 }});
  for (int size = 0; size <= 3; size++) {
    int nid = 3;
    f.push_back({"cache-" + name + "-" + std::to_string(size), mc::nseq(10, cd), [=](uint64_t i, mc::Ctx &c) { cache_case<T>(c, size, nid, mc::seq(i, 10), false); }, nullptr});
  }
  f.push_back({"cache-" + name + "-default", mc::nseq(10, cd - 1), [=](uint64_t i, mc::Ctx &c) { cache_case<T>(c, 0, 3, mc::seq(i, 10), true); }, nullptr});
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  add<int>(f, "int", thorough ? 9 : 7, thorough ? 7 : 6);
  add<std::string>(f, "string", thorough ? 7 : 5, thorough ? 6 : 4);
  add<Big>(f, "struct", thorough ? 7 : 5, thorough ? 6 : 4);
  // capacities far beyond what the sequences fill
  f.push_back({"deep", 5, [](uint64_t i, mc::Ctx &c) {
                 int cap = (int)mc::ipow(7, (unsigned)i + 1);
                 for (int fill : {1, cap / 2, cap - 1, cap}) {
                   std::vector<int> ops(fill, 0);
                   ops.push_back(2);
                   ops.push_back(0);
                   if (fill < 3000)
                     stack_case<int>(c, cap, ops);
                   tinyfk::SizedStack<int> s(cap);
                   for (int round = 0; round < 3; round++) {
                     for (int k = 0; k < fill; k++)
                       s.push(k * 3 + round);
                     bool ok = (int)s.size() == fill;
                     if (round == 1)
                       s.reset();
                     else
                       for (int k = fill; k-- > 0; s.pop())
                         ok = ok && s.top() == k * 3 + round;
                     c.check("deep", ok && s.empty(), "deep stack");
                     c.step();
                   }
                   tinyfk::SizedCache<int> ca(cap);
                   for (int k = 0; k < cap; k++)
                     if (k % 3)
                       ca.set_cache(k, k * 5);
                   bool ok = true;
                   for (int k = 0; k < cap; k++)
                     ok = ok && (k % 3 ? ca.get_cache(k) && *ca.get_cache(k) == k * 5 : !ca.get_cache(k));
                   ca.extend();
                   for (int k = 0; k <= cap; k++)
                     ok = ok && !ca.get_cache(k);
                   ca.set_cache(cap, 9);
                   ok = ok && ca.get_cache(cap) && *ca.get_cache(cap) == 9;
                   c.check("deep", ok, "large cache");
                   c.state(cap * 4 + fill);
                 }
               },
               nullptr});
  // the same operation again and again: whatever was stored before must stay
  // forgotten (or kept) however often it is repeated
  const int reps = thorough ? 300000 : 140000;
  f.push_back({"repeated", 3 * 4 * 6, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int size = 1 + d.pick(3), warm = d.pick(4), how = d.pick(6);
                 static const int W[4] = {0, 1, 254, 65533};
                 tinyfk::SizedCache<int> s(size);
                 tinyfk::SizedStack<int> st(size);
                 for (int k = 0; k < W[warm]; k++)
                   s.clear();
                 for (int k = 0; k < size; k++)
                   s.set_cache(k, 40 + k);
                 bool ok = true;
                 int bad = -1;
                 auto want = [&](int id, bool has, int v, int n) {
                   const int *p = s.get_cache(id);
                   if (ok && !(has ? p && *p == v : !p))
                     ok = false, bad = n;
                 };
                 for (int n = 1; n <= reps; n++) {
                   switch (how) {
                   case 0: // clear, nothing stored in between
                     s.clear();
                     for (int k = 0; k < size; k++)
                       want(k, false, 0, n);
                     break;
                   case 1: // clear, one entry stored every time
                     s.clear();
                     for (int k = 0; k < size; k++)
                       want(k, false, 0, n);
                     s.set_cache(size - 1, n);
                     for (int k = 0; k < size; k++)
                       want(k, k == size - 1, n, n);
                     break;
                   case 2: // only reading
                     for (int k = 0; k < size; k++)
                       want(k, true, 40 + k, n);
                     break;
                   case 3: // overwriting one entry
                     s.set_cache(0, n);
                     for (int k = 0; k < size; k++)
                       want(k, true, k ? 40 + k : n, n);
                     break;
                   case 4: { // a stack filled and unwound
                     int m = 1 + n % size;
                     for (int k = 0; k < m; k++)
                       st.push(n + k);
                     ok = ok && (int)st.size() == m && st.top() == n + m - 1;
                     for (int k = m; k-- > 0; st.pop())
                       ok = ok && st.top() == n + k;
                     ok = ok && st.empty() && st.size() == 0;
                     break;
                   }
                   case 5: // a stack filled and reset
                     for (int k = 0; k < size; k++)
                       st.push(n + k);
                     ok = ok && (int)st.size() == size && st.top() == n + size - 1;
                     st.reset();
                     ok = ok && st.empty() && st.size() == 0;
                     break;
                   }
                   if (!ok && bad < 0)
                     bad = n;
                 }
                 c.step(reps);
                 c.comparisons += reps;
                 static const char *hn[6] = {"clear", "clear+set", "get", "set", "push/pop", "push/reset"};
                 c.check("repeated", ok, std::string(hn[how]) + " repeated " + std::to_string(bad) + " times on size " + std::to_string(size));
                 // extended one by one
                 if (how == 0) {
                   tinyfk::SizedCache<int> e(size);
                   bool good = true;
                   for (int n = 0; n < 700; n++) {
                     e.set_cache(n % (size + n), n);
                     e.extend();
                     for (int k = 0; k <= size + n; k++)
                       good = good && !e.get_cache(k);
                     e.set_cache(size + n, 7 * n);
                     for (int k = 0; k <= size + n; k++)
                       good = good && (k == size + n ? e.get_cache(k) && *e.get_cache(k) == 7 * n : !e.get_cache(k));
                   }
                   c.check("repeated", good, "cache extended again and again");
                 }
                 c.state(mc::mix(i, 99));
               },
               nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
