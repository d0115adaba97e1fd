// Small framework for exhaustive enumeration over the real code.
//
// A harness registers families. A family is a finite, indexed set of cases
// (0..size-1); the driver splits the index range over worker processes and
// every index is executed. A case executes operations on the real library and
// compares the observations with the reference. Nothing here is random.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Progress { // shared with the driver through a file
  volatile uint64_t seq;
  volatile uint64_t index;
  char family[48];
  volatile uint64_t done;
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, 8, h); }
inline uint64_t mixd(uint64_t h, double v) {
  // values are quantised so that rounding does not create new states
  double s = std::fabs(v) < 1e-9 ? 0 : v;
  int64_t k = std::isfinite(s) && std::fabs(s) < 1e12 ? (int64_t)std::llround(s * 1e6) : (s > 0 ? INT64_MAX : INT64_MIN);
  return mix(h, (uint64_t)k);
}
inline uint64_t mixs(uint64_t h, const std::string &s) { return fnv(s.data(), s.size(), mix(h, s.size())); }

struct Failure {
  std::string family;
  uint64_t index;
  std::string key, msg;
};

struct Ctx {
  bool thorough = false;
  bool replay = false; // verbose single case
  Progress *prog = nullptr;
  // counters
  uint64_t transitions = 0, comparisons = 0, nontrivial = 0, skipped = 0;
  std::unordered_set<uint64_t> states;
  std::vector<Failure> failures;
  std::string cur_family;
  uint64_t cur_index = 0;
  std::string note; // description of what the case is doing, for messages
  size_t max_failures = 60;
  std::map<std::string, int> per_key;

  void tick() {
    if (prog)
      prog->seq++;
  }
  void state(uint64_t h) {
    if (states.size() < 4000000)
      states.insert(h);
  }
  void step(uint64_t n = 1) {
    transitions += n;
    if (prog)
      prog->seq++;
  }
  void nontriv() { nontrivial++; }
  void fail(const std::string &key, const std::string &msg) {
    if (per_key[key]++ < 3 && failures.size() < max_failures)
      failures.push_back(Failure{cur_family, cur_index, key, note.empty() ? msg : note + ": " + msg});
    if (replay)
      printf("FAIL %s: %s %s\n", key.c_str(), note.c_str(), msg.c_str());
  }
  // comparison helpers; `what` names the observation
  bool near(const std::string &key, double got, double want, double tol, const std::string &what) {
    comparisons++;
    double sc = 1.0 + std::fabs(want);
    if (std::fabs(got - want) <= tol * sc)
      return true; // false for NaN
    if (std::isinf(want) && got == want)
      return true;
    char b[200];
    snprintf(b, sizeof b, " got %.17g want %.17g", got, want);
    fail(key, what + b);
    return false;
  }
  bool eq(const std::string &key, const std::string &got, const std::string &want, const std::string &what) {
    comparisons++;
    if (got == want)
      return true;
    fail(key, what + " got [" + got + "] want [" + want + "]");
    return false;
  }
  bool eqi(const std::string &key, long long got, long long want, const std::string &what) {
    comparisons++;
    if (got == want)
      return true;
    fail(key, what + " got " + std::to_string(got) + " want " + std::to_string(want));
    return false;
  }
  bool check(const std::string &key, bool ok, const std::string &what) {
    comparisons++;
    if (!ok)
      fail(key, what);
    return ok;
  }
};

struct Family {
  std::string name;
  uint64_t size;
  std::function<void(uint64_t, Ctx &)> run;
  std::function<std::string(uint64_t)> describe; // optional
};

// mixed-radix decoding of a case index into choices
struct Digits {
  uint64_t v;
  explicit Digits(uint64_t i) : v(i) {}
  uint64_t pick(uint64_t n) {
    uint64_t r = v % n;
    v /= n;
    return r;
  }
};
inline uint64_t ipow(uint64_t b, unsigned e) {
  uint64_t r = 1;
  while (e--)
    r *= b;
  return r;
}
// number of operation sequences of length 1..d over n operations, and decoding
inline uint64_t nseq(uint64_t n, unsigned d) {
  uint64_t t = 0;
  for (unsigned k = 1; k <= d; k++)
    t += ipow(n, k);
  return t;
}
inline std::vector<int> seq(uint64_t i, uint64_t n) {
  unsigned k = 1;
  while (i >= ipow(n, k)) {
    i -= ipow(n, k);
    k++;
  }
  std::vector<int> s(k);
  for (unsigned j = 0; j < k; j++) {
    s[j] = (int)(i % n);
    i /= n;
  }
  return s;
}
inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

// MC_ONLY: comma separated family names, each optionally followed by <N (only its first N cases; sequences are numbered
// by length, so this is a smaller depth). A name may end in * (prefix).
inline std::vector<Family> only(std::vector<Family> fams) {
  const char *e = getenv("MC_ONLY");
  if (!e || !*e)
    return fams;
  std::vector<Family> out;
  std::stringstream ss(e);
  std::string w;
  std::vector<std::pair<std::string, uint64_t>> sel;
  while (std::getline(ss, w, ',')) {
    uint64_t n = UINT64_MAX;
    size_t c = w.find('<');
    if (c != std::string::npos) {
      n = strtoull(w.c_str() + c + 1, nullptr, 10);
      w = w.substr(0, c);
    }
    sel.emplace_back(w, n);
  }
  for (auto &f : fams)
    for (auto &x : sel) {
      bool pre = !x.first.empty() && x.first.back() == '*';
      std::string name = pre ? x.first.substr(0, x.first.size() - 1) : x.first;
      if (pre ? f.name.compare(0, name.size(), name) == 0 : f.name == name) {
        f.size = std::min<uint64_t>(f.size, x.second);
        out.push_back(f);
        break;
      }
    }
  return out;
}

inline int main_(int argc, char **argv, const std::function<std::vector<Family>(bool thorough)> &make) {
  bool thorough = false, list = false;
  uint64_t si = 0, sn = 1;
  std::string progress, out, only_case, until;
  double deadline = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier")
      thorough = next() == "thorough";
    else if (a == "--shard") {
      unsigned long long x, y;
      sscanf(next().c_str(), "%llu/%llu", &x, &y);
      si = x, sn = y;
    } else if (a == "--progress")
      progress = next();
    else if (a == "--out")
      out = next();
    else if (a == "--case")
      only_case = next();
    else if (a == "--until") // run the shard up to and including this case
      until = next();
    else if (a == "--deadline")
      deadline = atof(next().c_str());
    else if (a == "--list")
      list = true;
  }
  std::vector<Family> fams = only(make(thorough));
  if (list) {
    for (auto &f : fams)
      printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.size);
    return 0;
  }
  Ctx ctx;
  ctx.thorough = thorough;
  if (getenv("VERIF_FAILFAST"))
    ctx.max_failures = 1;
  Progress local{};
  ctx.prog = &local;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) {
      void *m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED)
        ctx.prog = static_cast<Progress *>(m);
    }
  }
  auto run_case = [&](Family &f, uint64_t i) {
    ctx.cur_family = f.name;
    ctx.cur_index = i;
    ctx.note.clear();
    strncpy(ctx.prog->family, f.name.c_str(), sizeof(ctx.prog->family) - 1);
    ctx.prog->family[std::min<size_t>(f.name.size(), sizeof(ctx.prog->family) - 1)] = 0;
    ctx.prog->index = i;
    ctx.prog->seq++;
    try {
      f.run(i, ctx);
    } catch (const std::exception &e) {
      ctx.fail("unexpected-exception", std::string("exception: ") + e.what());
    }
  };
  if (!only_case.empty()) {
    ctx.replay = true;
    auto c = only_case.rfind(':');
    std::string fn = only_case.substr(0, c);
    uint64_t idx = strtoull(only_case.c_str() + c + 1, nullptr, 10);
    for (auto &f : fams)
      if (f.name == fn && idx < f.size) {
        if (f.describe)
          printf("CASE %s: %s\n", only_case.c_str(), f.describe(idx).c_str());
        fflush(stdout);
        run_case(f, idx);
      }
    printf("failures: %zu\n", ctx.failures.size());
    return ctx.failures.empty() ? 0 : 1;
  }
  std::string ufam;
  uint64_t uidx = 0;
  if (!until.empty()) {
    auto c = until.rfind(':');
    ufam = until.substr(0, c);
    uidx = strtoull(until.c_str() + c + 1, nullptr, 10);
  }
  struct timeval t0;
  gettimeofday(&t0, nullptr);
  auto elapsed = [&]() {
    struct timeval t;
    gettimeofday(&t, nullptr);
    return (t.tv_sec - t0.tv_sec) + 1e-6 * (t.tv_usec - t0.tv_usec);
  };
  std::map<std::string, std::pair<uint64_t, uint64_t>> cov; // executed, size
  std::vector<std::string> samples;
  bool complete = true, stop = false;
  for (auto &f : fams) {
    uint64_t n = 0;
    for (uint64_t i = si; i < f.size && !stop; i += sn) {
      if (deadline > 0 && (n & 15) == 0 && elapsed() > deadline) {
        complete = false;
        break;
      }
      run_case(f, i);
      n++;
      if (ctx.failures.size() >= ctx.max_failures) {
        complete = false;
        stop = true;
      }
      if (!until.empty() && f.name == ufam && i == uidx)
        stop = true;
    }
    cov[f.name] = std::make_pair(n, f.size);
    if (f.describe && f.size > 0)
      samples.push_back(f.name + ":" + std::to_string(f.size / 2) + " " + f.describe(f.size / 2));
    if (stop)
      break;
  }
  if (!out.empty()) {
    FILE *o = fopen(out.c_str(), "w");
    fprintf(o, "{\"transitions\":%llu,\"comparisons\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"complete\":%s,\"families\":{",
            (unsigned long long)ctx.transitions, (unsigned long long)ctx.comparisons,
            (unsigned long long)ctx.nontrivial, (unsigned long long)ctx.skipped, complete ? "true" : "false");
    bool first = true;
    for (auto &c : cov) {
      fprintf(o, "%s\"%s\":[%llu,%llu]", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second.first,
              (unsigned long long)c.second.second);
      first = false;
    }
    fprintf(o, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++)
      fprintf(o, "%s\"%s\"", i ? "," : "", jesc(samples[i].substr(0, 1500)).c_str());
    fprintf(o, "],\"failures\":[");
    for (size_t i = 0; i < ctx.failures.size(); i++) {
      auto &x = ctx.failures[i];
      fprintf(o, "%s{\"case\":\"%s:%llu\",\"key\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", jesc(x.family).c_str(),
              (unsigned long long)x.index, jesc(x.key).c_str(), jesc(x.msg.substr(0, 3000)).c_str());
    }
    fprintf(o, "]}\n");
    fclose(o);
    FILE *h = fopen((out + ".states").c_str(), "wb");
    for (uint64_t s : ctx.states)
      fwrite(&s, 8, 1, h);
    fclose(h);
  }
  ctx.prog->done = 1;
  return ctx.failures.empty() ? 0 : 1;
}

} // namespace mc
