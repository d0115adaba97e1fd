// Operations on one model; what they answer is recorded as one hash per operation.
#pragma once
#include "doc.hpp"
#include "tinyfk.hpp"
#include <memory>

namespace ops {
typedef tinyfk::KinematicModel KM;
enum { NOPS = 11, NTEXT = 5 };
struct Obs {
  int n = 0;
  uint64_t h[24];
};
struct H {
  uint64_t h = 14695981039346656037ull;
  void d(double v) {
    uint64_t b;
    memcpy(&b, &v, 8);
    u(b);
  }
  void u(uint64_t b) {
    for (int i = 0; i < 8; i++) {
      h ^= (b >> (8 * i)) & 255;
      h *= 1099511628211ull;
    }
  }
  void s(const std::string &x) {
    for (char c : x) {
      h ^= (unsigned char)c;
      h *= 1099511628211ull;
    }
    u(x.size());
  }
  void t(const tinyfk::Transform &x) {
    for (double v : {x.position.x, x.position.y, x.position.z, x.rotation.x, x.rotation.y, x.rotation.z, x.rotation.w})
      d(v);
  }
};
inline const std::string &text(int which) {
  static std::vector<std::string> T;
  // a large robot: a chain of 40 links with a branch at every fourth, long names, long comments
  auto large = [] {
    std::string s = "<robot name='" + std::string(80, 'r') + "'><!--" + std::string(700, 'c') + "-->";
    auto nm = [](int i) { return "a_link_with_a_rather_long_name_in_the_chain_" + std::to_string(i); };
    for (int i = 0; i < 50; i++)
      s += "<link name='" + nm(i) + "'>" + (i % 3 ? "<inertial><mass value='" + std::to_string(1 + i % 7) + "'/><origin xyz='0.1 " + std::to_string(i) + " 0'/><inertia ixx='1' iyy='2' izz='3' ixy='0.1' ixz='0' iyz='0'/></inertial>" : "") + "</link>";
    for (int i = 1; i < 50; i++) {
      int p = i < 40 ? i - 1 : 4 * (i - 40);
      const char *ty[] = {"revolute", "continuous", "prismatic", "fixed", "revolute"};
      s += "<joint name='joint_" + nm(i) + "' type='" + ty[i % 5] + "'><parent link='" + nm(p) + "'/><child link='" + nm(i) + "'/><origin xyz='0.1 0 0.2' rpy='" + std::to_string(0.1 * (i % 5)) + " 0.2 0'/>" +
           (i % 5 == 3 ? "" : "<axis xyz='" + std::string(i % 2 ? "0 1 0" : "1 0 0") + "'/>") + "<limit lower='-1' upper='" + std::to_string(1 + i) + "' effort='2' velocity='3'/></joint>";
    }
    return s + "</robot>";
  };
  if (T.empty()) {
    T.push_back("<robot name='a'><link name='b'/><link name='c'><inertial><mass value='2'/><origin xyz='0.1 0 0.2'/><inertia ixx='1' iyy='2' izz='3' ixy='0.1' ixz='0' iyz='0'/></inertial></link>"
                "<link name='d'><inertial><mass value='3'/><inertia ixx='1' iyy='1' izz='1' ixy='0' ixz='0' iyz='0'/></inertial></link>"
                "<joint name='j' type='revolute'><parent link='b'/><child link='c'/><origin xyz='0 0 1' rpy='0.3 0.2 0.1'/><axis xyz='0 1 0'/><limit lower='-1' upper='2' effort='1' velocity='3'/></joint>"
                "<joint name='k' type='prismatic'><parent link='c'/><child link='d'/><origin xyz='0.5 0 0'/><axis xyz='0 0 1'/><limit lower='-2' upper='1' effort='4' velocity='5'/></joint></robot>");
    T.push_back("<?xml version='1.0' encoding='UTF-8'?><robot name='z'><link name='c'><inertial><mass value='5'/><origin xyz='1 2 3' rpy='1 0 0'/><inertia ixx='4' iyy='2' izz='3' ixy='0' ixz='0' iyz='0'/></inertial></link>"
                "<link name='b'/><link name='x'/><link name='d'/>"
                "<joint name='k' type='continuous'><parent link='c'/><child link='b'/><origin xyz='9 8 7' rpy='0.1 0 0'/><axis xyz='1 0 0'/></joint>"
                "<joint name='i' type='fixed'><parent link='b'/><child link='x'/><origin xyz='0 0 -4'/></joint>"
                "<joint name='j' type='revolute'><parent link='x'/><child link='d'/><origin xyz='0 2 0'/><axis xyz='0 0 1'/><limit lower='-3' upper='3' effort='7' velocity='8'/></joint></robot>");
    T.push_back(doc::make_doc(1, doc::SEM | doc::FMT, {}).text);
    T.push_back(doc::make_doc(3, doc::SEM | doc::FMT, {}).text);
    T.push_back(large());
  }
  return T[which];
}
struct Actor {
  const std::string *txt;
  std::unique_ptr<KM> m;
  int added = 0;
  Obs o;
  explicit Actor(int which) : txt(&text(which)) {}
  void ids(std::vector<size_t> &j, std::vector<double> &q, double k) {
    for (size_t i = 0; i < m->joints_.size(); i++) {
      j.push_back(i);
      q.push_back(k + 0.1 * (double)i);
    }
  }
  void poses(H &h, KM &k) {
    h.u(k.links_.size());
    for (size_t i = 0; i < k.links_.size(); i++) {
      tinyfk::Transform t;
      k.get_link_pose(i, t);
      h.t(t);
    }
  }
  template <class E> void mat(H &h, const E &J) {
    h.u((uint64_t)J.rows() * 1000 + (uint64_t)J.cols());
    for (int i = 0; i < J.rows(); i++)
      for (int k = 0; k < J.cols(); k++)
        h.d(J(i, k));
  }
  void build() {
    H h;
    try {
      m.reset(new KM(*txt));
      for (auto &s : m->get_link_names())
        h.s(s);
      for (auto &s : m->get_joint_names())
        h.s(s);
      added = 0;
    } catch (const std::exception &e) {
      h.s(e.what());
    }
    rec(h);
  }
  void destroy() {
    m.reset();
    rec(H());
  }
  void rec(const H &h) {
    if (o.n < 24)
      o.h[o.n++] = h.h;
  }
  void run(int op) {
    H h;
    if (!m) {
      rec(h);
      return;
    }
    try {
      std::vector<size_t> j;
      std::vector<double> q;
      switch (op) {
      case 0:
        ids(j, q, 0.2);
        m->set_joint_angles(j, q);
        poses(h, *m);
        break;
      case 1: {
        ids(j, q, -0.7);
        m->set_joint_angles(j, q);
        tinyfk::Transform b;
        b.position.x = 1;
        b.position.y = -2;
        b.position.z = 0.5;
        b.rotation.setFromRPY(0.1, 0.2, 0.3);
        m->set_base_pose(b);
        poses(h, *m);
        break;
      }
      case 2: {
        ids(j, q, 0);
        for (size_t i = 0; i < m->links_.size(); i++)
          mat(h, m->get_jacobian(i, j, i % 3 == 0 ? tinyfk::RotationType::RPY : i % 3 == 1 ? tinyfk::RotationType::XYZW : tinyfk::RotationType::IGNORE, i % 2));
        break;
      }
      case 3: {
        ids(j, q, 0);
        auto c = m->get_com();
        h.d(c.x), h.d(c.y), h.d(c.z);
        mat(h, m->get_com_jacobian(j, true));
        break;
      }
      case 4:
        mat(h, m->get_total_inertia_matrix());
        break;
      case 5: {
        std::array<double, 3> p{{0.1, 0.2, 0.3 + added}}, r{{0.4, 0, 0.1}};
        m->add_new_link("added" + std::to_string(added), (size_t)(added % 2), p, r);
        added++;
        poses(h, *m);
        try {
          m->add_new_link("added0", 0, p, r);
          h.u(1);
        } catch (const std::exception &e) {
          h.s(e.what());
        }
        break;
      }
      case 6: {
        KM k(*m);
        poses(h, k);
        std::vector<size_t> jj;
        std::vector<double> qq;
        ids(jj, qq, 0.9);
        k.set_joint_angles(jj, qq);
        poses(h, k);
        poses(h, *m);
        break;
      }
      case 7: {
        ids(j, q, 0);
        for (auto &b : m->get_joint_position_limits(j))
          h.d(b.first), h.d(b.second);
        for (double v : m->get_joint_velocity_limits(j))
          h.d(v);
        for (double v : m->get_joint_effort_limits(j))
          h.d(v);
        for (double v : m->get_joint_angles(j))
          h.d(v);
        for (size_t i : m->get_link_ids(m->get_link_names()))
          h.u(i);
        for (size_t i : m->get_joint_ids(m->get_joint_names()))
          h.u(i);
        try {
          m->get_link_ids({"no such link"});
          h.u(1);
        } catch (const std::exception &e) {
          h.s(e.what());
        }
        try {
          m->get_joint_ids({m->get_joint_names()[0], "no such joint"});
          h.u(1);
        } catch (const std::exception &e) {
          h.s(e.what());
        }
        break;
      }
      case 8: {
        auto u = urdf::parseURDF(*txt);
        h.u(u != nullptr);
        if (u) {
          std::unique_ptr<TiXmlDocument> x(urdf::exportURDF(u));
          TiXmlPrinter p;
          x->Accept(&p);
          h.s(p.CStr());
        }
        break;
      }
      case 9:
        for (const char *bad : {"<robot name='r'><link name='a'/><link name='a'/></robot>", "<robot name='r'><link name='a'>", "<robot name='r'><link name='a'/><joint name='j' type='fixed'><parent link='a'/><child link='q'/></joint></robot>"})
          try {
            KM k(bad);
            h.u(k.links_.size());
          } catch (const std::exception &e) {
            h.s(e.what());
          }
        break;
      case 10: { // queries only, whatever the configuration is
        poses(h, *m);
        auto c = m->get_com();
        h.d(c.x), h.d(c.y), h.d(c.z);
        m->set_joint_angle(0, 0.33);
        poses(h, *m);
        break;
      }
      }
    } catch (const std::exception &e) {
      h.s(std::string("exception ") + e.what());
    }
    rec(h);
  }
};
inline const char *name(int op) {
  static const char *N[] = {"set angles", "set angles and base", "Jacobians", "centre of mass", "inertia", "add link", "copy", "limits and lookups", "parse and export", "rejected descriptions", "queries"};
  return N[op];
}
} // namespace ops
