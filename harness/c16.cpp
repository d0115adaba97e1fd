// C16: rotation and pose algebra is consistent.
#include "bind.hpp"
using namespace bind;
using urdf::Pose;
using urdf::Rotation;
using urdf::Vector3;

static const double PI = 3.14159265358979323846;
static std::vector<double> angles(bool fine) {
  std::vector<double> v;
  int n = fine ? 60 : 24;
  for (int k = -n; k <= n; k++)
    v.push_back(k * PI / n);
  for (double e : {1e-3, 1e-6, 1e-9, 1e-12})
    for (double s : {0.0, PI / 2, PI, -PI / 2, -PI})
      v.push_back(s + e), v.push_back(s - e);
  for (double x : {0.1, -0.7, 1.3, 2.9, -3.1, 7.0, -10.0, 100.0, 6.5, 1.5, 1.55, -1.52})
    v.push_back(x);
  return v;
}
static std::string rs(const double *r) {
  char b[100];
  snprintf(b, sizeof b, "rpy(%.17g %.17g %.17g)", r[0], r[1], r[2]);
  return b;
}
static M3<LD> mat(const Rotation &q) { return quat(q.x, q.y, q.z, q.w); }
static double n2(const Rotation &q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
static bool vn(mc::Ctx &c, const std::string &key, const Vector3 &g, const V3<LD> &w, double tol, const std::string &what) {
  c.comparisons++;
  LD sc = 1 + fabsl(w.x) + fabsl(w.y) + fabsl(w.z);
  LD d = fabsl(g.x - w.x) + fabsl(g.y - w.y) + fabsl(g.z - w.z);
  if (d <= tol * sc)
    return true;
  char b[200];
  snprintf(b, sizeof b, " got (%.15g %.15g %.15g) want (%.15Lg %.15Lg %.15Lg)", g.x, g.y, g.z, w.x, w.y, w.z);
  c.fail(key, what + b);
  return false;
}
static bool mn(mc::Ctx &c, const std::string &key, const M3<LD> &g, const M3<LD> &w, double tol, const std::string &what) {
  c.comparisons++;
  LD d = mdiff(g, w);
  if (d <= tol)
    return true;
  char b[80];
  snprintf(b, sizeof b, " rotation differs by %.3Lg", d);
  c.fail(key, what + b);
  return false;
}

static void rpy_case(mc::Ctx &c, const double *r) {
  Rotation q;
  q.setFromRPY(r[0], r[1], r[2]);
  M3<LD> want = rpy<LD>(r[0], r[1], r[2]);
  std::string what = rs(r);
  c.step();
  c.near("unit", n2(q), 1, 1e-12, what + " squared norm");
  mn(c, "set", mat(q), want, 1e-12, what + " setFromRPY");
  double a[3];
  q.getRPY(a[0], a[1], a[2]);
  Vector3 v = q.getRPY();
  LD sp = -want.m[2][0]; // sine of the pitch
  bool sing = fabsl(sp) >= 0.99998;
  double tol = sing ? 0.00873 : 1e-9; // half a degree at the singularity
  // close to it the angles are ill-conditioned; the rotation they describe is not
  mn(c, sing ? "singular" : "read", rpy<LD>(a[0], a[1], a[2]), want, tol, what + " getRPY");
  mn(c, sing ? "singular" : "read", rpy<LD>(v.x, v.y, v.z), want, tol, what + " getRPY()");
  c.check("range", std::fabs(a[1]) <= PI / 2 + 1e-12 && std::fabs(v.y) <= PI / 2 + 1e-12, what + " pitch out of range");
  if (!sing) {
    c.check("range", std::fabs(a[0]) <= PI + 1e-12 && std::fabs(a[2]) <= PI + 1e-12 && std::fabs(v.x) <= PI + 1e-12 && std::fabs(v.z) <= PI + 1e-12, what + " angle out of range");
    if (std::fabs(r[1]) < PI / 2 && std::fabs(r[0]) < PI && std::fabs(r[2]) < PI)
      for (int k = 0; k < 3; k++) {
        double tk = fabsl(sp) < 0.995 ? 1e-9 : 1e-7;
        c.near("angles", a[k], r[k], tk, what + " angle " + std::to_string(k));
        c.near("angles", v[k], r[k], tk, what + " angle " + std::to_string(k) + " of getRPY()");
      }
  }
  // the negated quaternion is the same rotation
  Rotation m(-q.x, -q.y, -q.z, -q.w);
  m.getRPY(a[0], a[1], a[2]);
  mn(c, sing ? "singular" : "read", rpy<LD>(a[0], a[1], a[2]), want, tol, what + " getRPY of the negated quaternion");
  // text
  char b[120];
  snprintf(b, sizeof b, "%.17g %.17g %.17g", r[0], r[1], r[2]);
  Rotation t;
  t.init(b);
  mn(c, "init", mat(t), want, 1e-12, what + " init");
  c.state(mc::mixd(mc::mixd(mc::mixd(1, q.x), q.y), q.z) ^ mc::mixd(3, q.w));
}

static std::vector<Rotation> rots(bool thorough) {
  std::vector<Rotation> v;
  std::vector<std::array<double, 3>> as;
  for (double a : {0.0, PI / 2, PI, -PI / 2, 0.7})
    for (double b : {0.0, PI / 2, -0.9})
      for (double d : {0.0, PI / 2, 3.0, -2.0})
        as.push_back({{a, b, d}});
  (void)thorough;
  for (auto &a : as) {
    Rotation q;
    q.setFromRPY(a[0], a[1], a[2]);
    v.push_back(q);
  }
  // negative scalar part and pure quaternions
  v.push_back(Rotation(0.5, -0.5, 0.5, -0.5));
  v.push_back(Rotation(1, 0, 0, 0));
  v.push_back(Rotation(0, 0, -1, 0));
  v.push_back(Rotation(0, 0.6, 0, -0.8));
  return v;
}
static const A3 PTS[] = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, -2, 0}}, {{0.5, 0.25, -3}}, {{-1e3, 1e-3, 7}}};
static const int NP = 5;
static Vector3 uvec(const A3 &a) { return Vector3(a[0], a[1], a[2]); }
static V3<LD> lv(const Vector3 &a) { return V3<LD>(a.x, a.y, a.z); }
static Iso<LD> iso(const Pose &p) {
  Iso<LD> i;
  i.R = mat(p.rotation);
  i.p = lv(p.position);
  return i;
}
static void cmp(mc::Ctx &c, const std::string &key, const Pose &g, const Iso<LD> &w, const std::string &what, double tol = 1e-10) {
  mn(c, key, mat(g.rotation), w.R, tol, what);
  vn(c, key, g.position, w.p, tol, what + " position");
  c.near(key, n2(g.rotation), 1, 1e-10, what + " norm");
}
static Iso<LD> inv(const Iso<LD> &a) {
  Iso<LD> r;
  r.R = tr(a.R);
  V3<LD> p = r.R * a.p;
  r.p = V3<LD>(-p.x, -p.y, -p.z);
  return r;
}

static void pair_case(mc::Ctx &c, const std::vector<Rotation> &R, uint64_t i, bool thorough) {
  mc::Digits d(i);
  Pose a, b;
  a.rotation = R[d.pick(R.size())];
  b.rotation = R[d.pick(R.size())];
  std::string what = "rotations " + std::to_string(i % R.size()) + "," + std::to_string(i / R.size());
  M3<LD> A = mat(a.rotation), B = mat(b.rotation);
  Rotation ab = a.rotation * b.rotation;
  c.step();
  mn(c, "compose", mat(ab), A * B, 1e-12, what + " product");
  c.near("unit", n2(ab), 1, 1e-12, what + " norm of product");
  for (int p = 0; p < NP; p++)
    for (int q = 0; q < NP; q++) {
      a.position = uvec(PTS[p]);
      b.position = uvec(PTS[q]);
      Iso<LD> ia = iso(a), ib = iso(b);
      Pose ab = urdf::pose_transform(a, b);
      c.step();
      cmp(c, "compose", ab, ia * ib, what + " pose product");
      if (q == 0) { // single pose
        Iso<LD> w = inv(ia);
        Pose v = a.inverse(), x = a;
        cmp(c, "inverse", v, w, what + " inverse");
        cmp(c, "inverse", a, ia, what + " inverse changed its argument", 0);
        x.inverse_inplace();
        cmp(c, "inverse", x, w, what + " inverse_inplace");
        Iso<LD> id;
        cmp(c, "identity", urdf::pose_transform(a, v), id, what + " a * inverse(a)");
        cmp(c, "identity", urdf::pose_transform(v, a), id, what + " inverse(a) * a");
        cmp(c, "identity", v.inverse(), ia, what + " inverse of the inverse");
        Pose e;
        cmp(c, "identity", urdf::pose_transform(e, a), ia, what + " identity * a");
        cmp(c, "identity", urdf::pose_transform(a, e), ia, what + " a * identity");
        x.clear();
        cmp(c, "identity", x, id, what + " clear", 0);
        Rotation ri = a.rotation.inverse(), rg = a.rotation.GetInverse(), rp = a.rotation;
        rp.inverse_inplace();
        mn(c, "inverse", mat(ri), tr(A), 1e-12, what + " rotation inverse");
        mn(c, "inverse", mat(rg), tr(A), 1e-12, what + " GetInverse");
        mn(c, "inverse", mat(rp), tr(A), 1e-12, what + " rotation inverse_inplace");
      }
      // acting on points agrees with composing
      for (int r = 0; r < NP; r++) {
        Vector3 x = uvec(PTS[r]);
        vn(c, "point", a.rotation * x, A * lv(x), 1e-10, what + " rotated point");
        if (thorough || r == (p + q) % NP) {
          Vector3 one = ab.rotation * x + ab.position;
          Vector3 two = a.rotation * (b.rotation * x + b.position) + a.position;
          vn(c, "point", one, lv(two), 1e-10, what + " point through a product");
          Pose pt;
          pt.position = x;
          vn(c, "point", urdf::pose_transform(ab, pt).position, lv(two), 1e-10, what + " point as a pose");
        }
      }
      c.state(mc::mix(mc::mix(i, p), q));
    }
}
static void triple_case(mc::Ctx &c, const std::vector<Rotation> &R, uint64_t i) {
  mc::Digits d(i);
  Pose a, b, e;
  a.rotation = R[d.pick(R.size())];
  b.rotation = R[d.pick(R.size())];
  e.rotation = R[d.pick(R.size())];
  a.position = uvec(PTS[(i + 1) % NP]);
  b.position = uvec(PTS[(i / 3 + 3) % NP]);
  e.position = uvec(PTS[(i / 7 + 2) % NP]);
  c.step();
  Pose l = urdf::pose_transform(urdf::pose_transform(a, b), e), r = urdf::pose_transform(a, urdf::pose_transform(b, e));
  Iso<LD> w = iso(a) * iso(b) * iso(e);
  std::string what = "poses " + std::to_string(i);
  cmp(c, "associative", l, w, what + " (ab)c");
  cmp(c, "associative", r, w, what + " a(bc)");
}
static void vector_case(mc::Ctx &c, uint64_t i) {
  static const double X[] = {0, 1, -2, 0.1, 1e6, -1e-6, 3.5};
  mc::Digits d(i);
  A3 a, b;
  for (auto &x : a)
    x = X[d.pick(7)];
  for (auto &x : b)
    x = X[d.pick(7)];
  Vector3 u = uvec(a), v = uvec(b), o;
  std::string what = "vectors " + num(a[0]) + "," + num(a[1]) + "," + num(a[2]) + " " + num(b[0]) + "," + num(b[1]) + "," + num(b[2]);
  c.step();
  urdf::cross_product(u, v, o);
  vn(c, "cross", o, V3<LD>((LD)a[1] * b[2] - (LD)a[2] * b[1], (LD)a[2] * b[0] - (LD)a[0] * b[2], (LD)a[0] * b[1] - (LD)a[1] * b[0]), 1e-12, what + " cross");
  Vector3 s = u + v, m = u - v;
  for (int k = 0; k < 3; k++) {
    c.near("vector", s[k], a[k] + b[k], 0, what + " sum");
    c.near("vector", m[k], a[k] - b[k], 0, what + " difference");
    c.near("vector", u[k], a[k], 0, what + " component");
    if (b[0] != 0)
      c.near("vector", (u / b[0])[k], a[k] / b[0], 1e-15, what + " quotient");
  }
  Vector3 w = u;
  w.inverse_inplace();
  vn(c, "vector", w, V3<LD>(-a[0], -a[1], -a[2]), 0, what + " negation");
  w.clear();
  vn(c, "vector", w, V3<LD>(0, 0, 0), 0, what + " clear");
  w.init(num(a[0]) + " " + num(a[1]) + " " + num(a[2]));
  vn(c, "vector", w, V3<LD>(a[0], a[1], a[2]), 0, what + " init");
  for (int k = 0; k < 3; k++)
    w[k] = b[k];
  vn(c, "vector", w, V3<LD>(b[0], b[1], b[2]), 0, what + " indexed writes");
  for (size_t k : {3, 4, -1}) {
    bool th = false;
    try {
      w[k];
    } catch (std::out_of_range &) {
      th = true;
    }
    c.check("index", th, what + " index out of range accepted");
  }
  c.state(mc::mix(77, i));
}
// any quaternion of a grid, normalised on input
static void quat_case(mc::Ctx &c, uint64_t i) {
  static const double X[] = {0, 1, -1, 0.5, -0.25, 3, 1e-4, -200};
  mc::Digits d(i);
  double x = X[d.pick(8)], y = X[d.pick(8)], z = X[d.pick(8)], w = X[d.pick(8)];
  double n = std::sqrt(x * x + y * y + z * z + w * w);
  Rotation q, p(x, y, z, w);
  q.setFromQuaternion(x, y, z, w);
  p.normalize();
  c.step();
  std::string what = "quaternion " + num(x) + "," + num(y) + "," + num(z) + "," + num(w);
  double g[4], h[4];
  q.getQuaternion(g[0], g[1], g[2], g[3]);
  p.getQuaternion(h[0], h[1], h[2], h[3]);
  double want[4] = {x / n, y / n, z / n, w / n};
  if (n == 0)
    want[0] = want[1] = want[2] = 0, want[3] = 1;
  for (int k = 0; k < 4; k++) {
    c.near("quaternion", g[k], want[k], 1e-12, what);
    c.near("quaternion", h[k], want[k], 1e-12, what + " normalize");
  }
  M3<LD> W = mat(q);
  if (fabsl(W.m[2][0]) < 0.99998) {
    double a[3];
    q.getRPY(a[0], a[1], a[2]);
    mn(c, "read", rpy<LD>(a[0], a[1], a[2]), W, 1e-9, what + " getRPY");
    Vector3 v = q.getRPY();
    mn(c, "read", rpy<LD>(v.x, v.y, v.z), W, 1e-9, what + " getRPY()");
  } else {
    double a[3];
    q.getRPY(a[0], a[1], a[2]);
    mn(c, "singular", rpy<LD>(a[0], a[1], a[2]), W, 0.00873, what + " getRPY");
  }
  Rotation r = p;
  r.clear();
  mn(c, "quaternion", mat(r), M3<LD>(), 0, what + " clear");
  // inverses of quaternions that are not normalised
  if (n > 0) {
    Rotation s(x, y, z, w), iv = s.inverse(), gi = s.GetInverse();
    Rotation one = s * iv, two = gi * s;
    c.near("quaternion", one.w, 1, 1e-12, what + " q * inverse");
    c.near("quaternion", std::fabs(one.x) + std::fabs(one.y) + std::fabs(one.z), 0, 1e-12, what + " q * inverse");
    c.near("quaternion", two.w, 1, 1e-12, what + " GetInverse * q");
    c.near("quaternion", std::fabs(two.x) + std::fabs(two.y) + std::fabs(two.z), 0, 1e-12, what + " GetInverse * q");
  }
}

std::vector<mc::Family> fams(bool thorough) {
  std::vector<mc::Family> f;
  auto A = std::make_shared<std::vector<double>>(angles(thorough));
  uint64_t n = A->size();
  f.push_back({"rpy", n * n, [=](uint64_t i, mc::Ctx &c) {
                 double r[3] = {(*A)[i % n], (*A)[i / n], 0};
                 for (uint64_t k = 0; k < n; k++) {
                   r[2] = (*A)[k];
                   rpy_case(c, r);
                 }
               },
               nullptr});
  auto R = std::make_shared<std::vector<Rotation>>(rots(thorough));
  uint64_t m = R->size();
  f.push_back({"pairs", m * m, [=](uint64_t i, mc::Ctx &c) { pair_case(c, *R, i, thorough); }, nullptr});
  f.push_back({"triples", m * m * m, [=](uint64_t i, mc::Ctx &c) { triple_case(c, *R, i); }, nullptr});
  f.push_back({"vectors", mc::ipow(7, 6), [](uint64_t i, mc::Ctx &c) { vector_case(c, i); }, nullptr});
  f.push_back({"quaternions", mc::ipow(8, 4), [](uint64_t i, mc::Ctx &c) { quat_case(c, i); }, nullptr});
  return f;
}
int main(int argc, char **argv) { return mc::main_(argc, argv, fams); }
