// Independent reference: robot specification -> URDF text, and its kinematics
// and mass properties in long double, with derivatives by dual numbers.
// Nothing here uses code of the repository.
#pragma once
#include "mc.hpp"
#include <array>
#include <cmath>
#include <string>
#include <vector>

namespace ref {
typedef long double LD;

// dual number: value and one derivative
struct D {
  LD v, d;
  D(LD v_ = 0, LD d_ = 0) : v(v_), d(d_) {}
};
inline D operator+(D a, D b) { return D(a.v + b.v, a.d + b.d); }
inline D operator-(D a, D b) { return D(a.v - b.v, a.d - b.d); }
inline D operator-(D a) { return D(-a.v, -a.d); }
inline D operator*(D a, D b) { return D(a.v * b.v, a.v * b.d + a.d * b.v); }
inline D operator/(D a, D b) { return D(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
inline D Sin(D a) { return D(sinl(a.v), a.d * cosl(a.v)); }
inline D Cos(D a) { return D(cosl(a.v), -a.d * sinl(a.v)); }
inline D Atan2(D y, D x) {
  LD n = x.v * x.v + y.v * y.v;
  return D(atan2l(y.v, x.v), (x.v * y.d - y.v * x.d) / n);
}
inline D Asin(D a) { return D(asinl(a.v), a.d / sqrtl(1 - a.v * a.v)); }
inline LD Sin(LD a) { return sinl(a); }
inline LD Cos(LD a) { return cosl(a); }

template <class T> struct V3 {
  T x, y, z;
  V3(T a = T(0), T b = T(0), T c = T(0)) : x(a), y(b), z(c) {}
};
template <class T> V3<T> operator+(V3<T> a, V3<T> b) { return V3<T>(a.x + b.x, a.y + b.y, a.z + b.z); }
template <class T> V3<T> operator-(V3<T> a, V3<T> b) { return V3<T>(a.x - b.x, a.y - b.y, a.z - b.z); }
template <class T> V3<T> operator*(T s, V3<T> a) { return V3<T>(s * a.x, s * a.y, s * a.z); }

template <class T> struct M3 {
  T m[3][3];
  M3() {
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        m[i][j] = T(i == j ? 1 : 0);
  }
};
template <class T> M3<T> operator*(const M3<T> &a, const M3<T> &b) {
  M3<T> c;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      T s(0);
      for (int k = 0; k < 3; k++)
        s = s + a.m[i][k] * b.m[k][j];
      c.m[i][j] = s;
    }
  return c;
}
template <class T> V3<T> operator*(const M3<T> &a, const V3<T> &v) {
  return V3<T>(a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z,
               a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z);
}
template <class T> M3<T> tr(const M3<T> &a) {
  M3<T> c;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      c.m[i][j] = a.m[j][i];
  return c;
}
// rotation about one coordinate axis (0,1,2)
template <class T> M3<T> rotax(int ax, T t) {
  M3<T> r;
  T c = Cos(t), s = Sin(t);
  int a = (ax + 1) % 3, b = (ax + 2) % 3;
  r.m[a][a] = c;
  r.m[b][b] = c;
  r.m[a][b] = -s;
  r.m[b][a] = s;
  return r;
}
template <class T> M3<T> rpy(T r, T p, T y) { return rotax(2, y) * rotax(1, p) * rotax(0, r); }
// Rodrigues
template <class T> M3<T> axis_angle(const double *ax, T t) {
  T c = Cos(t), s = Sin(t), o = T(1) - c;
  T x(ax[0]), y(ax[1]), z(ax[2]);
  M3<T> r;
  r.m[0][0] = c + x * x * o;
  r.m[0][1] = x * y * o - z * s;
  r.m[0][2] = x * z * o + y * s;
  r.m[1][0] = x * y * o + z * s;
  r.m[1][1] = c + y * y * o;
  r.m[1][2] = y * z * o - x * s;
  r.m[2][0] = x * z * o - y * s;
  r.m[2][1] = y * z * o + x * s;
  r.m[2][2] = c + z * z * o;
  return r;
}
template <class T> struct Iso {
  M3<T> R;
  V3<T> p;
};
template <class T> Iso<T> operator*(const Iso<T> &a, const Iso<T> &b) {
  Iso<T> c;
  c.R = a.R * b.R;
  c.p = a.R * b.p + a.p;
  return c;
}
template <class T> Iso<T> make_iso(const double *xyz, const double *r) {
  Iso<T> c;
  c.R = rpy(T(r[0]), T(r[1]), T(r[2]));
  c.p = V3<T>(T(xyz[0]), T(xyz[1]), T(xyz[2]));
  return c;
}
// rotation matrix of a quaternion x,y,z,w
inline M3<LD> quat(LD x, LD y, LD z, LD w) {
  M3<LD> r;
  r.m[0][0] = 1 - 2 * (y * y + z * z);
  r.m[0][1] = 2 * (x * y - z * w);
  r.m[0][2] = 2 * (x * z + y * w);
  r.m[1][0] = 2 * (x * y + z * w);
  r.m[1][1] = 1 - 2 * (x * x + z * z);
  r.m[1][2] = 2 * (y * z - x * w);
  r.m[2][0] = 2 * (x * z - y * w);
  r.m[2][1] = 2 * (y * z + x * w);
  r.m[2][2] = 1 - 2 * (x * x + y * y);
  return r;
}
inline LD mdiff(const M3<LD> &a, const M3<LD> &b) {
  LD w = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      LD d = fabsl(a.m[i][j] - b.m[i][j]);
      if (!(d <= w))
        w = d; // keeps NaN visible
    }
  return w;
}

enum JType { REV, CONT, PRIS, FIX };
inline const char *tname(int t) {
  static const char *n[] = {"revolute", "continuous", "prismatic", "fixed"};
  return n[t];
}
typedef std::array<double, 3> A3;

struct Joint {
  std::string name;
  int type = REV;
  int parent = 0, child = 1; // link indices
  A3 xyz{{0, 0, 0}}, rpy{{0, 0, 0}}, axis{{1, 0, 0}};
  bool has_axis = true, has_origin = true, has_limit = true;
  double lower = -3, upper = 3, vel = 1, effort = 1;
  bool movable() const { return type != FIX; }
};
struct Link {
  std::string name;
  bool inertial = false, has_iorigin = true;
  double mass = 0;
  A3 com{{0, 0, 0}}, crpy{{0, 0, 0}};
  double I[6] = {0, 0, 0, 0, 0, 0}; // ixx ixy ixz iyy iyz izz
};
struct Added { // link added later
  std::string name;
  int parent; // index into the combined list: described links, then added ones
  A3 xyz, rpy;
};

inline std::string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline std::string vec(const A3 &a) { return num(a[0]) + " " + num(a[1]) + " " + num(a[2]); }
inline std::string xesc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '&')
      o += "&amp;";
    else if (c == '<')
      o += "&lt;";
    else if (c == '>')
      o += "&gt;";
    else if (c == '"')
      o += "&quot;";
    else if (c == '\'')
      o += "&apos;";
    else
      o += c;
  }
  return o;
}

struct Robot {
  std::string name = "r";
  std::vector<Link> links;
  std::vector<Joint> joints;
  std::vector<Added> added;

  std::string link_xml(const Link &l) const {
    std::string s = "<link name=\"" + xesc(l.name) + "\">";
    if (l.inertial) {
      s += "<inertial>";
      if (l.has_iorigin)
        s += "<origin xyz=\"" + vec(l.com) + "\" rpy=\"" + vec(l.crpy) + "\"/>";
      s += "<mass value=\"" + num(l.mass) + "\"/><inertia ixx=\"" + num(l.I[0]) + "\" ixy=\"" + num(l.I[1]) +
           "\" ixz=\"" + num(l.I[2]) + "\" iyy=\"" + num(l.I[3]) + "\" iyz=\"" + num(l.I[4]) + "\" izz=\"" +
           num(l.I[5]) + "\"/></inertial>";
    }
    return s + "</link>\n";
  }
  std::string joint_xml(const Joint &j) const {
    std::string s = "<joint name=\"" + xesc(j.name) + "\" type=\"" + tname(j.type) + "\">";
    if (j.has_origin)
      s += "<origin xyz=\"" + vec(j.xyz) + "\" rpy=\"" + vec(j.rpy) + "\"/>";
    s += "<parent link=\"" + xesc(links[j.parent].name) + "\"/><child link=\"" + xesc(links[j.child].name) + "\"/>";
    if (j.has_axis && j.type != FIX)
      s += "<axis xyz=\"" + vec(j.axis) + "\"/>";
    if (j.has_limit && j.type != FIX)
      s += "<limit lower=\"" + num(j.lower) + "\" upper=\"" + num(j.upper) + "\" velocity=\"" + num(j.vel) +
           "\" effort=\"" + num(j.effort) + "\"/>";
    return s + "</joint>\n";
  }
  std::string urdf() const {
    std::string s = "<?xml version=\"1.0\"?>\n<robot name=\"" + xesc(name) + "\">\n";
    for (auto &l : links)
      s += link_xml(l);
    for (auto &j : joints)
      s += joint_xml(j);
    return s + "</robot>\n";
  }
  int n_all() const { return (int)(links.size() + added.size()); }
  std::string link_name(int i) const {
    return i < (int)links.size() ? links[i].name : added[i - links.size()].name;
  }
  mutable std::vector<int> hint_; // where the joint above a link was found last
  int parent_joint(int link) const {
    if (link >= 0 && link < (int)hint_.size()) {
      int j = hint_[link];
      if (j >= 0 && j < (int)joints.size() && joints[j].child == link)
        return j;
    } else if (link >= 0 && link < (int)links.size())
      hint_.assign(links.size(), -1);
    for (size_t j = 0; j < joints.size(); j++)
      if (joints[j].child == link) {
        if (link >= 0 && link < (int)hint_.size())
          hint_[link] = (int)j;
        return (int)j;
      }
    return -1;
  }
  int parent_of(int link) const {
    if (link >= (int)links.size())
      return added[link - links.size()].parent;
    int j = parent_joint(link);
    return j < 0 ? -1 : joints[j].parent;
  }
  int root() const {
    for (size_t l = 0; l < links.size(); l++)
      if (parent_joint((int)l) < 0)
        return (int)l;
    return -1;
  }
  // is joint j on the path root -> link
  bool moves(int j, int link) const {
    while (link >= 0) {
      if (link < (int)links.size() && parent_joint(link) == j)
        return true;
      link = parent_of(link);
    }
    return false;
  }
  template <class T> Iso<T> joint_tf(const Joint &j, T q) const {
    Iso<T> o;
    if (j.has_origin)
      o = make_iso<T>(j.xyz.data(), j.rpy.data());
    static const double dx[3] = {1, 0, 0};
    const double *ax = j.has_axis ? j.axis.data() : dx;
    Iso<T> m;
    if (j.type == REV || j.type == CONT)
      m.R = axis_angle<T>(ax, q);
    else if (j.type == PRIS)
      m.p = V3<T>(q * T(ax[0]), q * T(ax[1]), q * T(ax[2]));
    return o * m;
  }
  // pose of a link; q is indexed by joint (fixed ones ignored)
  template <class T> Iso<T> pose(int link, const std::vector<T> &q, const Iso<T> &base) const {
    std::vector<int> chain;
    for (int l = link; l >= 0; l = parent_of(l))
      chain.push_back(l);
    Iso<T> c = base;
    for (int k = (int)chain.size() - 1; k >= 0; k--) {
      int l = chain[k];
      if (l >= (int)links.size()) {
        auto &a = added[l - links.size()];
        c = c * make_iso<T>(a.xyz.data(), a.rpy.data());
      } else {
        int j = parent_joint(l);
        if (j >= 0)
          c = c * joint_tf<T>(joints[j], q[j]);
      }
    }
    return c;
  }
  // poses of all described links
  template <class T> std::vector<Iso<T>> poses(const std::vector<T> &q, const Iso<T> &base) const {
    std::vector<Iso<T>> p(links.size());
    std::vector<char> done(links.size(), 0);
    for (size_t i = 0; i < links.size(); i++) {
      std::vector<int> up;
      int l = (int)i;
      for (; l >= 0 && !done[l]; l = parent_of(l))
        up.push_back(l);
      for (int k = (int)up.size() - 1; k >= 0; k--) {
        int j = parent_joint(up[k]);
        p[up[k]] = j < 0 ? base : p[joints[j].parent] * joint_tf<T>(joints[j], q[j]);
        done[up[k]] = 1;
      }
    }
    return p;
  }
  double mass() const {
    double m = 0;
    for (auto &l : links)
      if (l.inertial)
        m += l.mass;
    return m;
  }
  template <class T> V3<T> com(const std::vector<T> &q, const Iso<T> &base) const {
    V3<T> s;
    LD m = 0;
    auto P = poses<T>(q, base);
    for (size_t i = 0; i < links.size(); i++)
      if (links[i].inertial) {
        A3 c = links[i].has_iorigin ? links[i].com : A3{{0, 0, 0}};
        const Iso<T> &t = P[i];
        V3<T> p = t.R * V3<T>(T(c[0]), T(c[1]), T(c[2])) + t.p;
        s = s + T(links[i].mass) * p;
        m += links[i].mass;
      }
    return V3<T>(s.x / T(m), s.y / T(m), s.z / T(m));
  }
  M3<LD> inertia(const std::vector<LD> &q, const Iso<LD> &base) const {
    V3<LD> c = com<LD>(q, base);
    auto P = poses<LD>(q, base);
    M3<LD> tot;
    for (int i = 0; i < 3; i++)
      tot.m[i][i] = 0;
    for (size_t i = 0; i < links.size(); i++)
      if (links[i].inertial) {
        const Link &l = links[i];
        Iso<LD> t = P[i];
        if (l.has_iorigin)
          t = t * make_iso<LD>(l.com.data(), l.crpy.data());
        M3<LD> I;
        int ix[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}};
        for (int a = 0; a < 3; a++)
          for (int b = 0; b < 3; b++)
            I.m[a][b] = l.I[ix[a][b]];
        M3<LD> W = t.R * I * tr(t.R);
        LD r[3] = {t.p.x - c.x, t.p.y - c.y, t.p.z - c.z};
        LD n2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
        for (int a = 0; a < 3; a++)
          for (int b = 0; b < 3; b++)
            tot.m[a][b] += W.m[a][b] + (LD)l.mass * ((a == b ? n2 : 0) - r[a] * r[b]);
      }
    return tot;
  }
};

// rpy (principal) of a rotation, as duals when T is D
inline void get_rpy(const M3<D> &R, D o[3]) {
  o[0] = Atan2(R.m[2][1], R.m[2][2]);
  o[1] = Asin(-R.m[2][0]);
  o[2] = Atan2(R.m[1][0], R.m[0][0]);
}
inline void get_rpy(const M3<LD> &R, LD o[3]) {
  o[0] = atan2l(R.m[2][1], R.m[2][2]);
  o[1] = asinl(std::max((LD)-1, std::min((LD)1, -R.m[2][0])));
  o[2] = atan2l(R.m[1][0], R.m[0][0]);
}
// angular velocity (world) of a dual rotation
inline V3<LD> omega(const M3<D> &R) {
  LD W[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      LD s = 0;
      for (int k = 0; k < 3; k++)
        s += R.m[i][k].d * R.m[j][k].v;
      W[i][j] = s;
    }
  return V3<LD>(W[2][1], W[0][2], W[1][0]);
}
inline Iso<D> lift(const Iso<LD> &a) {
  Iso<D> b;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      b.R.m[i][j] = D(a.R.m[i][j]);
  b.p = V3<D>(D(a.p.x), D(a.p.y), D(a.p.z));
  return b;
}

// base pose given by xyz and (unrestricted) rpy
struct Base {
  A3 xyz{{0, 0, 0}}, rpy{{0, 0, 0}};
};
inline Iso<LD> base_iso(const Base &b) { return make_iso<LD>(b.xyz.data(), b.rpy.data()); }
// derivative w.r.t. base coordinate k (0..5); roll/pitch/yaw are the principal ones of the rotation
inline Iso<D> base_dual(const Base &b, int k) {
  Iso<LD> v = base_iso(b);
  LD r[3];
  get_rpy(v.R, r);
  Iso<D> o;
  D rr[3];
  for (int i = 0; i < 3; i++)
    rr[i] = D(r[i], k == 3 + i ? 1 : 0);
  o.R = rpy(rr[0], rr[1], rr[2]);
  o.p = V3<D>(D(v.p.x, k == 0), D(v.p.y, k == 1), D(v.p.z, k == 2));
  return o;
}
} // namespace ref
