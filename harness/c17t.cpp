// C17, part 2: operations on two models in two threads, under every relevant schedule.
// All memory accesses of the library are instrumented. Two operations whose accesses do not
// conflict commute, so when the threads share no written memory every interleaving is equivalent
// to the serial ones; when they do, all schedules with up to two preemptions at contended accesses
// are executed. Besides, the threads are preempted at function entries (not with the large robot).
#include "mc.hpp"
#include "c17ops.hpp"
#include "rt_sched.hpp"
#include <sys/wait.h>
using namespace ops;

enum { BUILD = 100, DESTROY = 101 };
static const std::vector<std::vector<int>> SCRIPTS = {{BUILD}, {BUILD, 0, DESTROY}, {0}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {1, 10}};
static std::string label(const std::vector<int> &s) {
  std::string r;
  for (int o : s)
    r += std::string(r.empty() ? "" : ", ") + (o == BUILD ? "build" : o == DESTROY ? "destroy" : name(o));
  return r;
}
struct Shared { // between a schedule's process and the one that explores
  Obs o[2];
  sched::Result r;
  uint32_t nconf;
  uint64_t conf[4096];
  uint32_t nsites[2];
  uint32_t sites[2][1 << 18];
};
static Shared *sh = nullptr;
static Actor *actor[2];
static const std::vector<int> *script[2];
static void thread_body(int id) {
  for (int o : *script[id])
    if (o == BUILD)
      actor[id]->build();
    else if (o == DESTROY)
      actor[id]->destroy();
    else
      actor[id]->run(o);
}
static const std::vector<int> NONE;
// one schedule in a fresh process; false when it did not finish
static bool schedule(int first, const std::vector<sched::Switch> &sw, bool record, const std::vector<uint64_t> &conf, int &status) {
  sh->r = sched::Result();
  pid_t p = fork();
  if (p == 0) {
    alarm(60);
    sched::set_conflicts(conf);
    sched::Result r = sched::run(first, sw, record, thread_body);
    for (int i = 0; i < 2; i++)
      sh->o[i] = actor[i]->o;
    if (record) {
      auto c = sched::conflicts();
      sh->nconf = (uint32_t)std::min<size_t>(c.size(), 4096);
      for (uint32_t i = 0; i < sh->nconf; i++)
        sh->conf[i] = c[i];
      for (int t = 0; t < 2; t++) {
        auto s = sched::sites(t);
        sh->nsites[t] = (uint32_t)std::min<size_t>(s.size(), 1 << 18);
        for (uint32_t i = 0; i < sh->nsites[t]; i++)
          sh->sites[t][i] = s[i];
      }
    }
    sh->r = r;
    _exit(0);
  }
  if (p < 0)
    return false;
  while (waitpid(p, &status, 0) < 0 && errno == EINTR) {
  }
  return WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->r.finished;
}
struct Out {
  uint64_t runs, conflicts, points, steals, accesses;
  int failed;
  char key[32], msg[1500];
};
static std::string describe(int first, const std::vector<sched::Switch> &sw) {
  std::string s = std::string("thread ") + (first ? "B" : "A") + " first";
  for (auto &x : sw)
    s += std::string(", preempt ") + (x.thread ? "B" : "A") + (x.kind ? " at function call " : " at contended access ") + std::to_string(x.n);
  return s;
}
static void explore(mc::Ctx &c, Out *out, int ta, int tb, const std::vector<int> &sa, const std::vector<int> &sb, size_t cap, bool all_points, size_t pairs, bool entries) {
  script[0] = &sa;
  script[1] = &sb;
  Actor a(ta), b(tb);
  actor[0] = &a;
  actor[1] = &b;
  if (sa[0] != BUILD)
    a.build();
  if (sb[0] != BUILD)
    b.build();
  a.o.n = b.o.n = 0;
  auto fail = [&](const char *key, const std::string &m) {
    if (out->failed++ == 0) {
      snprintf(out->key, sizeof out->key, "%s", key);
      snprintf(out->msg, sizeof out->msg, "A: %s; B: %s; texts %d and %d: %s", label(sa).c_str(), label(sb).c_str(), ta, tb, m.c_str());
    }
  };
  // alone
  Obs want[2];
  int st;
  for (int t = 0; t < 2; t++) {
    script[1 - t] = &NONE;
    if (!schedule(t, {}, false, {}, st)) {
      fail("alone", "operation fails alone");
      return;
    }
    want[t] = sh->o[t];
    script[0] = &sa;
    script[1] = &sb;
  }
  script[0] = &sa;
  script[1] = &sb;
  std::vector<uint64_t> conf;
  bool grown = false;
  sched::Result last;
  auto go = [&](int first, const std::vector<sched::Switch> &sw, bool record) -> bool {
    c.step();
    out->runs++;
    if (!schedule(first, sw, record, conf, st)) {
      fail("crash", "process ends abnormally (status " + std::to_string(st) + "), " + describe(first, sw));
      return false;
    }
    last = sh->r;
    out->steals += last.steals;
    out->accesses += last.accesses;
    for (int t = 0; t < 2; t++)
      for (int k = 0; k < want[t].n; k++)
        if (sh->o[t].n != want[t].n || sh->o[t].h[k] != want[t].h[k]) {
          const auto &s = t ? sb : sa;
          fail("threads", std::string("thread ") + (t ? "B" : "A") + " gets another answer than alone in '" + label({s[k]}) + "', " + describe(first, sw));
          return false;
        }
    if (record)
      for (uint32_t i = 0; i < sh->nconf; i++)
        if (std::find(conf.begin(), conf.end(), sh->conf[i]) == conf.end() && conf.size() < 4000) {
          conf.push_back(sh->conf[i]);
          grown = true;
        }
    return true;
  };
  std::vector<std::vector<uint32_t>> pts(2);
  for (int first = 0; first < 2; first++) {
    if (!go(first, {}, true))
      return;
    for (int t = 0; t < 2; t++) {
      // function entries: the first two and the last of every call site, or all
      std::map<uint32_t, std::vector<uint32_t>> by;
      for (uint32_t i = 0; i < sh->nsites[t]; i++)
        by[sh->sites[t][i]].push_back(i);
      if (first == t && entries)
        for (auto &x : by)
          for (size_t i = 0; i < x.second.size(); i++)
            if (all_points || i < 1 || i + 1 == x.second.size())
              pts[t].push_back(x.second[i]);
    }
  }
  // contended accesses, until no new contended memory turns up
  size_t done = 0;
  for (int round = 0; round < 6; round++) {
    grown = false;
    for (int first = 0; first < 2; first++) {
      if (conf.empty())
        break;
      if (!go(first, {}, true))
        return;
      uint32_t n = last.nconf[first];
      std::vector<uint32_t> after; // accesses of the other thread after a preemption
      for (uint32_t i = 0; i < n && done < cap; i++) {
        done++;
        if (!go(first, {{first, 0, i}}, true))
          return;
        after.push_back(last.nconf[1 - first]);
      }
      for (uint32_t i = 0; i < after.size(); i++)
        for (uint32_t j = 0; j < after[i] && done < 2 * cap; j++) {
          done++;
          if (!go(first, {{first, 0, i}, {1 - first, 0, j}}, false))
            return;
        }
    }
    if (!grown)
      break;
  }
  out->conflicts = conf.size();
  // function entries
  for (int t = 0; t < 2; t++)
    for (uint32_t p : pts[t]) {
      out->points++;
      if (!go(t, {{t, 1, p}}, false))
        return;
    }
  // two preemptions at function entries, first occurrences only
  size_t n2 = 0;
  if (pairs)
    for (int t = 0; t < 2; t++) {
      size_t sx = std::max<size_t>(1, pts[t].size() / pairs), sy = std::max<size_t>(1, pts[1 - t].size() / pairs);
      for (size_t x = 0; x < pts[t].size(); x += sx)
        for (size_t y = 0; y < pts[1 - t].size(); y += sy) {
          n2++;
          if (!go(t, {{t, 1, pts[t][x]}, {1 - t, 1, pts[1 - t][y]}}, false))
            return;
        }
    }
}
static void one(mc::Ctx &c, int ta, int tb, const std::vector<int> &sa, const std::vector<int> &sb, size_t cap, bool all, size_t pairs, bool entries) {
  Out *out = (Out *)mmap(0, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)out, 0, sizeof *out);
  if (!sh)
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  fflush(0);
  pid_t p = fork(); // the library has not run in this process: nothing is initialised yet
  if (p == 0) {
    explore(c, out, ta, tb, sa, sb, cap, all, pairs, entries);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    c.fail("crash", "exploring A: " + label(sa) + "; B: " + label(sb) + " ends with status " + std::to_string(st));
  if (out->failed)
    c.fail(out->key, out->msg);
  if (c.replay || getenv("MC_VERBOSE"))
    printf("A: %s; B: %s; texts %d %d: %llu schedules, %llu contended granules, %llu function entries, %llu accesses, %llu hand-backs\n", label(sa).c_str(), label(sb).c_str(), ta, tb,
           (unsigned long long)out->runs, (unsigned long long)out->conflicts, (unsigned long long)out->points, (unsigned long long)out->accesses, (unsigned long long)out->steals);
  c.transitions += out->accesses;
  c.comparisons += 2 * out->runs;
  for (uint64_t k = 0; k < out->runs; k++) {
    uint64_t h = mc::mix(mc::mix(k, ta * 10 + tb), 7);
    h = mc::mixs(mc::mixs(h, label(sa)), label(sb));
    c.state(h);
  }
  munmap(out, sizeof *out);
}
static std::vector<mc::Family> make(bool thorough) {
  std::vector<mc::Family> F;
  struct P {
    int a, b, ta, tb;
  };
  auto ps = std::make_shared<std::vector<P>>();
  int n = (int)SCRIPTS.size();
  // expensive pairs first and spread over the shards
  for (int a = 0; a < n; a++)
    for (int b = a; b < n; b++) {
      ps->push_back({a, b, 0, 0});
      ps->push_back({a, b, 1, 0});
      ps->push_back({a, b, 4, b % 2 ? 0 : 4});
      if (thorough)
        ps->push_back({a, b, 2, 3});
    }
  F.push_back({"schedules", ps->size(),
               [ps, thorough](uint64_t i, mc::Ctx &c) {
                 const P &p = (*ps)[i];
                 // the large robot: preemptions at contended accesses only
                 one(c, p.ta, p.tb, SCRIPTS[p.a], SCRIPTS[p.b], thorough ? 10000 : 300, thorough && p.ta != 4, thorough && p.ta != 4 ? 40 : 0, p.ta != 4);
               },
               [ps](uint64_t i) { return "A: " + label(SCRIPTS[(*ps)[i].a]) + "; B: " + label(SCRIPTS[(*ps)[i].b]); }});
  return F;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, make); }
