// C24: copies of a C++ model are equal and independent.
#include "hist.hpp"
using namespace bind;
enum { SET, SET1, BASE, INIT, CLEAR, ADD, ADDL, TAKEN, Q, QC, NOP1 }; // on one model
static const char *ON[] = {"set", "set_joint_angle", "base", "init", "clear", "add(leaf)", "add(last)", "add(taken)", "query", "com+inertia"};
static Robot robot(int k) {
  if (k == 0)
    return make({-1, 0, 1}, {Kind{REV, 1, 2}, Kind{PRIS, 2, 4}}, 2, true);
  return make({-1, 0, 0}, {Kind{CONT, 2, 4}, Kind{REV, 1, 0}}, 4, false);
}
struct Slots {
  Sys s[3];
  bool live[3] = {false, false, false};
  int n = 0;
  Slots(int k) {
    s[0] = Sys(robot(k));
    live[0] = true;
  }
  void one(mc::Ctx &c, int w, int o, int pos) {
    Sys &x = s[w];
    c.step();
    auto ids = x.movable_ids();
    switch (o) {
    case SET: x.set({0.3 + 0.1 * pos, -0.4 - 0.2 * pos}); break;
    case SET1:
      x.q[1] = 1.0 + pos;
      x.m->set_joint_angle(ids[1], 1.0 + pos);
      break;
    case BASE: x.set_base(BASES[1 + pos % 5]); break;
    case INIT:
      x.m->set_init_angles();
      std::fill(x.q.begin(), x.q.end(), 0);
      break;
    case CLEAR: x.m->clear_cache(); break;
    case ADD:
    case ADDL:
      do_add(c, x, o == ADD || x.rb.added.empty() ? 2 : x.rb.n_all() - 1, A3{{0.1 + pos, 0.2, -0.3}}, A3{{0.3, 0.1 * pos, 1}}, "n" + std::to_string(pos), pos & 1, "id");
      break;
    case TAKEN: {
      bool th = false;
      try {
        x.m->add_new_link(x.rb.link_name(x.rb.n_all() - 1), 0, {{0, 0, 0}}, {{0, 0, 0}});
      } catch (const std::exception &) {
        th = true;
      }
      c.check("taken", th, "taken name accepted");
      break;
    }
    case Q:
      for (int l = x.rb.n_all() - 1; l >= 0; l--)
        cmp_link(c, x, l, "query", "in between");
      cmp_jac(c, "query", x, x.rb.n_all() - 1, x.movable(), RT::RPY, true, "in between");
      break;
    case QC:
      cmp_com(c, x, "query", "in between");
      cmp_inertia(c, x, "query", "in between");
      break;
    }
  }
  void copy(mc::Ctx &c, int from, int to, bool assign) {
    c.step();
    if (assign && live[to]) {
      *s[to].m = *s[from].m; // assignment
      auto m = std::move(s[to].m);
      s[to] = Sys();
      s[to].m = std::move(m);
    } else
      s[to].m.reset(new KM(*s[from].m));
    s[to].rb = s[from].rb;
    s[to].lid = s[from].lid;
    s[to].jid = s[from].jid;
    s[to].q = s[from].q;
    s[to].base = s[from].base;
    live[to] = true;
  }
};
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  // ops: 10 on model 0, 10 on model 1 (no-op when absent), copy 0->1 (construct), assign 0->1, assign 1->0, drop 0
  const int N = 2 * NOP1 + 4;
  unsigned depth = thorough ? 5 : 4;
  auto name = [=](int o) {
    return o < NOP1 ? std::string("A.") + ON[o] : o < 2 * NOP1 ? std::string("B.") + ON[o - NOP1] : o == 2 * NOP1 ? std::string("B=copy(A)") : o == 2 * NOP1 + 1 ? std::string("B:=A") : o == 2 * NOP1 + 2 ? std::string("A:=B") : std::string("destroy A");
  };
  for (int rob = 0; rob < 2; rob++)
    for (int pre = 0; pre < (rob ? 2 : 4); pre++) { // what happened before the copy
      unsigned dd = pre == 1 ? depth : depth - 1;
      f.push_back({"copies-robot" + std::to_string(rob) + "-pre" + std::to_string(pre), mc::nseq(N, dd), [=](uint64_t i, mc::Ctx &c) {
                     auto sq = mc::seq(i, N);
                     Slots w(rob);
                     c.note = "pre" + std::to_string(pre);
                     for (int o : sq)
                       c.note += " " + name(o);
                     if (pre == 1)
                       w.copy(c, 0, 1, false);
                     if (pre == 2) {
                       w.one(c, 0, ADD, 7);
                       w.one(c, 0, SET, 7);
                       w.one(c, 0, Q, 7);
                       w.copy(c, 0, 1, false);
                     }
                     if (pre == 3) {
                       w.copy(c, 0, 1, false);
                       w.one(c, 1, ADD, 8);
                       w.one(c, 0, ADDL, 9);
                     }
                     for (size_t p = 0; p < sq.size(); p++) {
                       int o = sq[p];
                       if (o < NOP1) {
                         if (w.live[0])
                           w.one(c, 0, o, (int)p);
                       } else if (o < 2 * NOP1) {
                         if (w.live[1])
                           w.one(c, 1, o - NOP1, (int)p);
                       } else if (o == 2 * NOP1) {
                         if (w.live[0])
                           w.copy(c, 0, 1, false);
                       } else if (o == 2 * NOP1 + 1) {
                         if (w.live[0])
                           w.copy(c, 0, 1, true);
                       } else if (o == 2 * NOP1 + 2) {
                         if (w.live[1] && w.live[0])
                           w.copy(c, 1, 0, true);
                       } else if (w.live[1] && w.live[0]) {
                         w.s[0].m.reset();
                         w.live[0] = false;
                       }
                       c.state(mc::mix(w.live[0] ? state_hash(w.s[0], 1) : 0, w.live[1] ? state_hash(w.s[1], 2) : 0));
                     }
                     for (int k = 0; k < 2; k++)
                       if (w.live[k]) {
                         cmp_all(c, w.s[k], (int)(i % 6), k ? "copy" : "original", k ? "B at the end" : "A at the end");
                         // and both can go on
                         w.one(c, k, ADDL, 20 + k);
                         w.one(c, k, SET, 20);
                       }
                     for (int k = 0; k < 2; k++)
                       if (w.live[k])
                         cmp_all(c, w.s[k], (int)((i + 1) % 6), k ? "copy" : "original", k ? "B afterwards" : "A afterwards");
                   }, nullptr});
    }
  f.push_back({"samples", 3 * 4, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 Sys a = load_sample(d.pick(3));
                 a.set(sample_q(a.rb, 1));
                 Sys b;
                 b.m.reset(new KM(*a.m));
                 b.rb = a.rb, b.lid = a.lid, b.jid = a.jid, b.q = a.q, b.base = a.base;
                 Sys &x = d.v & 1 ? b : a, &y = d.v & 1 ? a : b;
                 do_add(c, x, 3, A3{{1, 2, 3}}, A3{{1, 0, 0}}, "t", true, "id");
                 do_add(c, y, 5, A3{{1, 2, 3}}, A3{{1, 0, 0}}, "u", true, "id");
                 x.set(sample_q(x.rb, 2));
                 c.step(4);
                 for (Sys *s : {&a, &b}) {
                   for (int l = 0; l < s->rb.n_all(); l++)
                     cmp_link(c, *s, l, "copy", "sample");
                   cmp_jac(c, "copy", *s, s->rb.n_all() - 1, s->movable(), RT::RPY, true, "sample");
                   cmp_ids(c, *s, "copy", "sample");
                 }
                 c.state(i);
               }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
