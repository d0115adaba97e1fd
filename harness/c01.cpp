// C01: every operation history ends in the answers of the current configuration.
#include "hist.hpp"
using namespace bind;

enum { SET_ALL, SET_ONE, SET_SINGLE, SET_SAME, BASE1, BASE2, INIT, CLEAR, ADD_LEAF, ADD_LAST, ADD_TAKEN, LOW_CLEAR, LOWBASE_CLEAR,
       Q_LEAF, Q_ALL, Q_JAC, Q_JACB, Q_COM, Q_COMJ, Q_INERTIA, SET_REV, NOPS };
static const char *ON[NOPS] = {"set_all", "set_one", "set_joint_angle", "set_same_again", "base1", "base2", "init_angles", "clear_cache", "add(leaf)", "add(last)",
                               "add(taken name)", "_set+clear", "_set_base+clear", "pose(leaf)", "pose(all)", "jacobian", "jacobian(base)", "com", "com_jacobian", "inertia", "set_reversed"};
static Robot robot(int k) {
  if (k == 0) // chain, masses
    return make({-1, 0, 1, 2}, {Kind{REV, 1, 2}, Kind{PRIS, 2, 4}, Kind{CONT, 2, 1}}, 13, true);
  if (k == 1) // branch, fixed joint in between
    return make({-1, 0, 1, 1}, {Kind{CONT, 2, 4}, Kind{FIX, 2, 0}, Kind{REV, 1, 0}}, 4, true);
  return make({-1, 0, 0, 2}, {Kind{PRIS, 1, 0}, Kind{REV, 2, 5}, Kind{REV, 3, 2}}, 22, false);
}
struct Run {
  Sys s;
  int nadd = 0;
  explicit Run(int k) : s(robot(k)) {}
  void op(mc::Ctx &c, int o, int pos) {
    auto mv = s.movable();
    auto ids = s.movable_ids();
    double v = 0.3 * (pos + 1) + 0.1;
    const std::string K = "stale";
    c.step();
    switch (o) {
    case SET_ALL: {
      std::vector<LD> q(s.q.size(), 0);
      for (size_t i = 0; i < mv.size(); i++)
        q[mv[i]] = (double)(v - 0.8 * i);
      s.set(q);
      break;
    }
    case SET_REV: {
      std::vector<size_t> r(ids.rbegin(), ids.rend());
      std::vector<double> a;
      for (size_t i = 0; i < mv.size(); i++) {
        a.push_back(-v + 0.5 * i);
        s.q[mv[mv.size() - 1 - i]] = a.back();
      }
      s.m->set_joint_angles(r, a);
      break;
    }
    case SET_ONE:
      s.q[mv[0]] = v + 1;
      s.m->set_joint_angles({ids[0]}, {v + 1});
      break;
    case SET_SINGLE:
      s.q[mv.back()] = v - 2;
      s.m->set_joint_angle(ids.back(), v - 2);
      break;
    case SET_SAME:
      s.set(s.q);
      break;
    case BASE1: s.set_base(BASES[2]); break;
    case BASE2: s.set_base(BASES[5]); break;
    case INIT:
      s.m->set_init_angles();
      std::fill(s.q.begin(), s.q.end(), 0);
      break;
    case CLEAR: s.m->clear_cache(); break;
    case ADD_LEAF:
    case ADD_LAST: {
      int p = o == ADD_LEAF || s.rb.added.empty() ? 3 : s.rb.n_all() - 1;
      do_add(c, s, p, A3{{0.1 + 0.1 * nadd, -0.2, 0.3}}, A3{{0.2, -0.3, 0.4 + nadd}}, "new" + std::to_string(nadd), nadd & 1, K);
      nadd++;
      break;
    }
    case ADD_TAKEN: {
      bool th = false;
      try {
        s.m->add_new_link(s.rb.link_name(s.rb.n_all() - 1), s.lid[0], {{1, 2, 3}}, {{0, 0, 0}});
      } catch (const std::exception &) {
        th = true;
      }
      c.check("taken-name", th, "adding a link with a taken name did not throw");
      break;
    }
    case LOW_CLEAR: {
      std::vector<double> a;
      for (size_t i = 0; i < mv.size(); i++) {
        a.push_back(0.2 - v + 0.3 * i);
        s.q[mv[i]] = a.back();
      }
      s.m->_set_joint_angles(ids, a);
      s.m->clear_cache();
      break;
    }
    case LOWBASE_CLEAR:
      s.base = BASES[1];
      s.m->_set_base_pose(to_tf(BASES[1]));
      s.m->clear_cache();
      break;
    case Q_LEAF: cmp_link(c, s, s.rb.n_all() - 1, K, "pose(leaf)"); break;
    case Q_ALL:
      for (int l = 0; l < s.rb.n_all(); l++)
        cmp_link(c, s, l, K, "pose(all)");
      break;
    case Q_JAC: cmp_jac(c, K, s, 3, mv, RT::RPY, false, "jacobian"); break;
    case Q_JACB: cmp_jac(c, K, s, s.rb.n_all() - 1, mv, RT::XYZW, true, "jacobian with base"); break;
    case Q_COM: cmp_com(c, s, K, "com"); break;
    case Q_COMJ: cmp_comjac(c, s, mv, true, K, "com_jacobian"); break;
    case Q_INERTIA: cmp_inertia(c, s, K, "inertia"); break;
    }
    c.state(state_hash(s, 7));
  }
};
static std::string show(int rob, const std::vector<int> &sq) {
  std::string d = "robot" + std::to_string(rob);
  for (int o : sq)
    d += std::string(" ") + ON[o];
  return d;
}
std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  unsigned d0 = thorough ? 5 : 4, d1 = thorough ? 4 : 3;
  for (int rob = 0; rob < 3; rob++) {
    unsigned d = rob == 0 ? d0 : d1;
    f.push_back({"history-robot" + std::to_string(rob), mc::nseq(NOPS, d), [=](uint64_t i, mc::Ctx &c) {
                   auto sq = mc::seq(i, NOPS);
                   Run r(rob);
                   c.note = show(rob, sq);
                   for (size_t p = 0; p < sq.size(); p++)
                     r.op(c, sq[p], (int)p);
                   cmp_all(c, r.s, (int)(i % 6), "stale", "at the end");
                   // asking again changes nothing
                   cmp_all(c, r.s, (int)((i + 1) % 6), "not-repeatable", "asked again");
                 },
                 [=](uint64_t i) { return show(rob, mc::seq(i, NOPS)); }});
  }
  // longer histories over the operations that touch cache, configuration and tree
  static const int CORE[8] = {SET_ALL, SET_SINGLE, BASE1, ADD_LAST, Q_LEAF, Q_COM, Q_JACB, INIT};
  unsigned dc = thorough ? 7 : 5;
  uint64_t nc = mc::ipow(8, dc);
  f.push_back({"history-core", nc, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 std::vector<int> sq;
                 for (unsigned k = 0; k < dc; k++)
                   sq.push_back(CORE[d.pick(8)]);
                 Run r((int)(i % 3));
                 c.note = show((int)(i % 3), sq);
                 for (size_t p = 0; p < sq.size(); p++)
                   r.op(c, sq[p], (int)p);
                 cmp_all(c, r.s, (int)(i % 6), "stale", "at the end");
               }, nullptr});
  // every move from one configuration to another: joint values from a grid in
  // which changes cancel, swap, flip sign or are tiny; bases that share the
  // position, a rotation component or everything but a sign
  static const double MV[6] = {0, 0.5, -0.5, 1.0, 0.5000001, 6.78318530717958623};
  const unsigned nv = thorough ? 6 : 5;
  auto q_of = [=](uint64_t a, Sys &s) {
    mc::Digits d(a);
    std::vector<LD> q(s.q.size(), 0);
    for (int j : s.movable())
      q[j] = MV[d.pick(nv)];
    return q;
  };
  auto move = [=](mc::Ctx &c, Sys &s, const std::vector<LD> &to, int how) {
    auto mv = s.movable();
    auto ids = s.movable_ids();
    c.step();
    if (how == 0)
      s.set(to);
    else if (how == 1) { // only what differs
      std::vector<size_t> di;
      std::vector<double> dv;
      for (size_t k = 0; k < mv.size(); k++)
        if (to[mv[k]] != s.q[mv[k]]) {
          di.push_back(ids[k]);
          dv.push_back((double)to[mv[k]]);
        }
      s.q = to;
      s.m->set_joint_angles(di, dv);
    } else if (how == 2) { // one at a time, last first
      for (size_t k = mv.size(); k-- > 0;) {
        s.q[mv[k]] = to[mv[k]];
        s.m->set_joint_angle(ids[k], (double)to[mv[k]]);
        cmp_link(c, s, 3, "stale", "halfway");
      }
    } else {
      std::vector<double> a;
      for (int j : mv)
        a.push_back((double)to[j]);
      s.q = to;
      s.m->_set_joint_angles(ids, a);
      s.m->clear_cache();
    }
    c.state(state_hash(s, 9));
  };
  auto ask = [=](mc::Ctx &c, Sys &s, int what, const char *when) {
    switch (what) {
    case 0:
      for (int l = 0; l < s.rb.n_all(); l++)
        cmp_link(c, s, l, "stale", when);
      break;
    case 1: cmp_link(c, s, 3, "stale", when); break;
    case 2:
      cmp_com(c, s, "stale", when);
      cmp_inertia(c, s, "stale", when);
      break;
    case 3: cmp_jac(c, "stale", s, 3, s.movable(), RT::XYZW, false, when); break;
    default: cmp_comjac(c, s, s.movable(), true, "stale", when);
    }
  };
  f.push_back({"moves", 3ull * 4 * mc::ipow(nv, 3) * mc::ipow(nv, 3), [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int rob = d.pick(3), how = d.pick(4);
                 Sys s(robot(rob));
                 auto A = q_of(d.pick(mc::ipow(nv, 3)), s), B = q_of(d.pick(mc::ipow(nv, 3)), s);
                 c.note = "robot" + std::to_string(rob) + " move " + std::to_string(i);
                 s.set(A);
                 ask(c, s, (int)(i / 12 % 5), "before the move");
                 move(c, s, B, how);
                 for (int w = 0; w < 4; w++)
                   ask(c, s, w, "after the move");
                 move(c, s, A, how);
                 ask(c, s, 0, "after moving back");
               }, nullptr});
  static const Base MB[14] = {{},
                              {{{1, -2, 0.5}}, {{0, 0, 0}}},
                              {{{-2, 1, 0.5}}, {{0, 0, 0}}},
                              {{{1, -2, 0.5}}, {{0.6, 0, 0}}},
                              {{{1, -2, 0.5}}, {{-0.6, 0, 0}}},
                              {{{1, -2, 0.5}}, {{0, 0.6, 0}}},
                              {{{1, -2, 0.5}}, {{0, 0, 0.6}}},
                              {{{0, 0, 0}}, {{0, 0, 0.6}}},
                              {{{0, 0, 0}}, {{0, 0, -0.6}}},
                              {{{0, 0, 0}}, {{0, 0, 3.14159265358979312}}},
                              {{{0, 0, 0}}, {{3.14159265358979312, 0, 0}}},
                              {{{0, 0, 0}}, {{0, 0, 0.6000001}}},
                              {{{1.0000001, -2, 0.5}}, {{0, 0, 0.6}}},
                              {{{0, 0, 0}}, {{0, 0, 6.28318530717958623}}}};
  f.push_back({"base-moves", 3ull * 5 * 3 * 14 * 14 * 14, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int rob = d.pick(3), q = d.pick(5), how = d.pick(3);
                 Sys s(robot(rob));
                 c.note = "robot" + std::to_string(rob) + " base move " + std::to_string(i);
                 s.set(q_of(1 + i % 5 + 25 * (i % 3), s));
                 for (int k = 0; k < 3; k++) {
                   s.base = MB[d.pick(14)];
                   c.step();
                   if (how == 0)
                     s.m->set_base_pose(to_tf(s.base));
                   else {
                     s.m->_set_base_pose(to_tf(s.base));
                     s.m->clear_cache();
                   }
                   if (how == 2 && k == 1)
                     s.set(s.q);
                   ask(c, s, k == 2 ? 0 : q, k == 2 ? "after the moves" : "between the moves");
                 }
                 ask(c, s, 3, "after the moves");
               }, nullptr});
  // one operation repeated up to a number of times around which counters wrap
  static const int RN[] = {2, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072};
  const int nrn = thorough ? 17 : 15;
  f.push_back({"repeated", 2ull * NOPS * 3 * nrn, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int rob = d.pick(2) * 2, o = d.pick(NOPS), between = d.pick(3), n = RN[d.pick(nrn)];
                 if (o == ADD_LEAF || o == ADD_LAST)
                   n = std::min(n, 300);
                 if ((o == Q_COMJ || o == Q_ALL || o == Q_INERTIA || o == Q_JAC || o == Q_JACB || o == ADD_TAKEN) && n > 600)
                   n = 600 + n % 7; // the slow ones
                 Run r(rob);
                 c.note = "robot" + std::to_string(rob) + " " + ON[o] + " repeated " + std::to_string(n) + " times";
                 r.op(c, SET_REV, 1);
                 r.op(c, BASE2, 1);
                 for (int l = 0; l < r.s.rb.n_all(); l++)
                   cmp_link(c, r.s, l, "stale", "before");
                 if (between == 2)
                   r.op(c, ADD_LAST, 2);
                 cmp_com(c, r.s, "stale", "before");
                 for (int k = 0; k < n; k++) {
                   r.op(c, o, k % 5);
                   if (between == 1) {
                     tinyfk::Transform t;
                     r.s.m->get_link_pose(r.s.lid[1], t);
                   }
                 }
                 cmp_all(c, r.s, (int)(i % 6), "stale", "after the repetitions");
               }, nullptr});
  // all ordered pairs of operations on the sample robots
  f.push_back({"samples", 3ull * NOPS * NOPS, [=](uint64_t i, mc::Ctx &c) {
                 mc::Digits d(i);
                 int k = d.pick(3), a = d.pick(NOPS), b = d.pick(NOPS);
                 if (!thorough && k == 0 && (a * NOPS + b) % 5) // the large one is slow
                   return;
                 Run r(0);
                 r.s = load_sample(k);
                 c.note = "sample " + std::to_string(k) + " " + ON[a] + " " + ON[b];
                 r.op(c, SET_ALL, 3);
                 r.op(c, Q_LEAF, 3);
                 r.op(c, a, 0);
                 r.op(c, b, 1);
                 int n = r.s.rb.n_all();
                 for (int l = 0; l < n; l++)
                   cmp_link(c, r.s, n - 1 - l, "stale", "at the end");
                 cmp_com(c, r.s, "stale", "at the end");
                 cmp_jac(c, "stale", r.s, n - 1, r.s.movable(), RT::XYZW, true, "at the end");
                 cmp_angles(c, r.s, "stale", "at the end");
               }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
