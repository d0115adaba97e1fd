From 2f617f22dc5870ca10f50914a4803d3e46435286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 01/33] fix: set up the relevance table for robots without
 inertial data

Only add_new_link filled it, so get_jacobian of a robot without any
inertial element read outside of an empty table.
---
 src/tinyfk.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 313ca8c..15e688c 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -85,6 +85,10 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   total_mass_ = total_mass;
   joint_angles_ = joint_angles;
 
+  // must be done here too, because a robot without inertial data gets no
+  // additional link below
+  this->update_rptable();
+
   // add COM of each link as new link
   {
     // NOTE: due to my bad design (add_new_link update internal state)
-- 
2.43.0


From e70e107b7c632075bc4559a1597fac6783572528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 02/33] fix: compute the base orientation columns of the
 Jacobian analytically

The finite difference broke down (values around 1e7) where roll or yaw of the
end effector wraps at half a turn, and where the quaternion of the base pose
and the one made from its RPY differ in sign.
---
 src/kinematics.cpp | 65 +++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index d837d2d..a5e9a25 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -179,15 +179,6 @@ KinematicModel::get_jacobian(size_t elink_id,
     }
   }
 
-  Transform tf_rlink_to_blink, tf_blink_to_rlink, tf_blink_to_elink;
-  Vector3 rpy_rlink_to_blink;
-  if (with_base) {
-    this->get_link_pose(this->root_link_id_, tf_rlink_to_blink);
-    tf_blink_to_rlink = tf_rlink_to_blink.inverse();
-    rpy_rlink_to_blink = tf_rlink_to_blink.rotation.getRPY();
-    tf_blink_to_elink = pose_transform(tf_blink_to_rlink, tf_rlink_to_elink);
-  }
-
   if (with_base) {
     const size_t dim_dof = joint_ids.size();
 
@@ -195,39 +186,41 @@ KinematicModel::get_jacobian(size_t elink_id,
     jacobian(1, dim_dof + 1) = 1.0;
     jacobian(2, dim_dof + 2) = 1.0;
 
-    // we resort to numerical method to base pose jacobian (just because I don't
-    // have time)
-    // TODO(HiroIshida): compute using analytical method.
-    constexpr double eps = 1e-7;
+    Transform tf_rlink_to_blink;
+    this->get_link_pose(this->root_link_id_, tf_rlink_to_blink);
+    const Vector3 rpy_rlink_to_blink = tf_rlink_to_blink.rotation.getRPY();
+    const Vector3 vec_blink_to_elink = epos - tf_rlink_to_blink.position;
+
+    // changing roll, pitch or yaw of the base rotates the whole robot around
+    // these world axes (R = Rz(yaw) * Ry(pitch) * Rx(roll))
+    Rotation rot_yaw;
+    rot_yaw.setFromRPY(0.0, 0.0, rpy_rlink_to_blink.z);
+    const Vector3 world_axes[3] = {tf_rlink_to_blink.rotation *
+                                       Vector3(1.0, 0.0, 0.0),
+                                   rot_yaw * Vector3(0.0, 1.0, 0.0),
+                                   Vector3(0.0, 0.0, 1.0)};
+
     for (size_t rpy_idx = 0; rpy_idx < 3; rpy_idx++) {
       const size_t idx_col = dim_dof + 3 + rpy_idx;
+      const Vector3 &world_axis = world_axes[rpy_idx];
 
-      auto rpy_tweaked = rpy_rlink_to_blink;
-      rpy_tweaked[rpy_idx] += eps;
-
-      Transform tf_rlink_to_blink_tweaked = tf_rlink_to_blink;
-      tf_rlink_to_blink_tweaked.rotation.setFromRPY(
-          rpy_tweaked.x, rpy_tweaked.y, rpy_tweaked.z);
-      Transform tf_rlink_to_elink_tweaked =
-          pose_transform(tf_rlink_to_blink_tweaked, tf_blink_to_elink);
-      auto pose_out = tf_rlink_to_elink_tweaked;
-
-      const auto pos_diff = pose_out.position - tf_rlink_to_elink.position;
-      jacobian(0, idx_col) = pos_diff.x / eps;
-      jacobian(1, idx_col) = pos_diff.y / eps;
-      jacobian(2, idx_col) = pos_diff.z / eps;
+      Vector3 dpos;
+      cross_product(world_axis, vec_blink_to_elink, dpos);
+      jacobian(0, idx_col) = dpos.x;
+      jacobian(1, idx_col) = dpos.y;
+      jacobian(2, idx_col) = dpos.z;
       if (rot_type == RotationType::RPY) {
-        auto erpy_tweaked = pose_out.rotation.getRPY();
-        const auto erpy_diff = erpy_tweaked - erpy;
-        jacobian(3, idx_col) = erpy_diff.x / eps;
-        jacobian(4, idx_col) = erpy_diff.y / eps;
-        jacobian(5, idx_col) = erpy_diff.z / eps;
+        const Vector3 drpy_dt = rpy_derivative(erpy, world_axis);
+        jacobian(3, idx_col) = drpy_dt.x;
+        jacobian(4, idx_col) = drpy_dt.y;
+        jacobian(5, idx_col) = drpy_dt.z;
       }
       if (rot_type == RotationType::XYZW) {
-        jacobian(3, idx_col) = (pose_out.rotation.x - erot.x) / eps;
-        jacobian(4, idx_col) = (pose_out.rotation.y - erot.y) / eps;
-        jacobian(5, idx_col) = (pose_out.rotation.z - erot.z) / eps;
-        jacobian(6, idx_col) = (pose_out.rotation.w - erot.w) / eps;
+        const Rotation dq_dt = q_derivative(erot_inverse, world_axis);
+        jacobian(3, idx_col) = dq_dt.x;
+        jacobian(4, idx_col) = dq_dt.y;
+        jacobian(5, idx_col) = dq_dt.z;
+        jacobian(6, idx_col) = dq_dt.w;
       }
     }
   }
-- 
2.43.0


From 7ebba9aa8d54582fdf568ae559a27fbd3f91ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 03/33] fix: let the transform stack grow with the added links

It kept the size of the original robot, so solving a link at the end of a
long chain of added links wrote past its end.
---
 src/tinyfk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 15e688c..f0d2a63 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -255,6 +255,8 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   links_.push_back(new_link);
   links_[parent_id]->child_links.push_back(new_link);
   transform_cache_.extend();
+  // a chain of added links can be deeper than the original robot
+  transform_stack_ = SizedStack<LinkIdAndTransform>(links_.size());
 
   this->update_rptable(); // set _rptable
 
-- 
2.43.0


From 7c3c40528db3c7b3bfa3fbed54717a37df97385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 04/33] fix: take the rpy of the inertial origin into account
 in the total inertia

The inertia tensor is given in the inertial frame, but the link that stands
for that frame was added with its position only.
---
 src/tinyfk.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index f0d2a63..1c9b4ed 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -99,10 +99,8 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
         continue;
       }
       const auto com_dummy_link_name = link->name + "_com";
-      Transform new_link_pose;
-      new_link_pose.position.x = link->inertial->origin.position.x;
-      new_link_pose.position.y = link->inertial->origin.position.y;
-      new_link_pose.position.z = link->inertial->origin.position.z;
+      // the inertia tensor is given in the rotated inertial frame
+      const Transform new_link_pose = link->inertial->origin;
       const auto new_link =
           this->add_new_link(com_dummy_link_name, link->id, new_link_pose);
       // set new link's inertial as the same as the parent
-- 
2.43.0


From 7663cc8970e528349a3aefef5897c84dd0130a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 05/33] fix: clear the cache in set_joint_angle

Poses asked for before were returned for the new angle, too.
---
 include/tinyfk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index e71910f..63ad270 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -145,6 +145,7 @@ public: // functions
 
   void set_joint_angle(size_t joint_id, double angle) {
     joint_angles_[joint_id] = angle;
+    this->clear_cache();
   }
 
   urdf::LinkSharedPtr add_new_link(const std::string &link_name,
-- 
2.43.0


From bbf1bc8b3a5b7938777c74e612f32447680cfefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 06/33] fix: keep copies of a model independent when links are
 added

A copy shares the link objects. A link added to one of them became a child of
the shared parent, and the next link added to the other one indexed its
relevance table with the foreign link id, out of bounds.
---
 src/tinyfk.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 1c9b4ed..79d2711 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -269,18 +269,16 @@ void KinematicModel::update_rptable() {
   int n_dof = joint_ids_.size();
   auto rptable = RelevancePredicateTable(n_link, n_dof);
 
-  for (urdf::JointSharedPtr joint : joints_) {
-    int joint_id = joint_ids_.at(joint->name);
-    urdf::LinkSharedPtr clink = joint->getChildLink();
-    std::stack<urdf::LinkSharedPtr> link_stack;
-    link_stack.push(clink);
-    while (!link_stack.empty()) {
-      auto here_link = link_stack.top();
-      link_stack.pop();
-      rptable.table_[here_link->id][joint_id] = true;
-      for (auto &link : here_link->child_links) {
-        link_stack.push(link);
+  // climb from each link of this model to the root. Descending by child_links
+  // instead would reach links which were added to a copy of this model only.
+  for (const urdf::LinkSharedPtr &link : links_) {
+    urdf::LinkSharedPtr here_link = link;
+    while (here_link != nullptr && here_link->parent_joint != nullptr) {
+      const urdf::JointSharedPtr &joint = here_link->parent_joint;
+      if (joint->type != urdf::Joint::FIXED) {
+        rptable.table_[link->id][joint->id] = true;
       }
+      here_link = here_link->getParent();
     }
   }
   rptable_ = rptable;
-- 
2.43.0


From 219eca762e5b711c608dec51273193e8ba55931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 07/33] fix: throw when the robot description cannot be parsed

parseURDF returns a null pointer for an invalid description, which the
constructor of KinematicModel dereferenced.
---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 79d2711..84bd434 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -19,6 +19,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   }
   urdf::ModelInterfaceSharedPtr robot_urdf_interface =
       urdf::parseURDF(xml_string);
+  if (robot_urdf_interface == nullptr) {
+    throw std::runtime_error("the robot description is not a valid URDF");
+  }
 
   // numbering link id
   std::vector<urdf::LinkSharedPtr> links;
-- 
2.43.0


From db8eaa6f12c9a4b995cc99a0812d27cc6dda44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 08/33] fix: reject robot descriptions whose joints do not form
 a tree

A link with two parent joints and a cycle of links next to the tree were
accepted; querying the links of a cycle never returned.
---
 urdf_parser/include/urdf_model/model.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index 8b7ced8..a16f5fe 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -137,6 +137,11 @@ public:
           throw ParseError("parent link [" + parent_link_name + "] of joint [" + joint->first + "] not found.  This is not valid according to the URDF spec. Every link you refer to from a joint needs to be explicitly defined in the robot description. To fix this problem you can either remove this joint [" + joint->first + "] from your urdf file, or add \"<link name=\"" + parent_link_name + "\" />\" to your urdf file.");
         }
         
+        if (parent_link_tree.find(child_link_name) != parent_link_tree.end())
+        {
+          throw ParseError("link [" + child_link_name + "] is the child of more than one joint.  The robot xml is not a valid tree.");
+        }
+
         //set parent link for child link
         child_link->setParent(parent_link);
 
@@ -181,6 +186,21 @@ public:
     {
       throw ParseError("No root link found. The robot xml is not a valid tree.");
     }
+
+    // every other link has exactly one parent, but a chain of parents which
+    // does not end at the root link is a cycle
+    for (std::map<std::string, LinkSharedPtr>::const_iterator l=this->links_.begin(); l!=this->links_.end(); l++)
+    {
+      std::string ancestor = l->first;
+      for (std::size_t depth = 0; ancestor != this->root_link_->name; depth++)
+      {
+        if (depth == parent_link_tree.size())
+        {
+          throw ParseError("link [" + l->first + "] is not connected to the root link. The robot xml is not a valid tree.");
+        }
+        ancestor = parent_link_tree.find(ancestor)->second;
+      }
+    }
   }
   
   
-- 
2.43.0


From 140408103c18767118076cbdfee19b156fde3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 09/33] fix: reject links without a name or with malformed
 inertial data

The result of parseLink was ignored, so that a link without a name got
the empty name, and malformed inertial data was silently taken as zero.
---
 urdf_parser/src/link.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 009a7e0..557ff8e 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -421,7 +421,7 @@ bool parseLink(Link &link, TiXmlElement* config)
   if (!name_char)
   {
     //CONSOLE_BRIDGE_logError("No name given for the link.");
-    return false;
+    throw ParseError("No name given for the link.");
   }
   link.name = std::string(name_char);
 
@@ -433,7 +433,7 @@ bool parseLink(Link &link, TiXmlElement* config)
     if (!parseInertial(*link.inertial, i))
     {
       //CONSOLE_BRIDGE_logError("Could not parse inertial element for Link [%s]", link.name.c_str());
-      return false;
+      throw ParseError("Could not parse inertial element for Link [" + link.name + "]");
     }
   }
 
-- 
2.43.0


From cd740b5831c3143b9f9b53a673f8849ce2b1b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 10/33] fix: report infinite velocity and effort limits for
 joints without limits

The limits of a continuous joint without limit element were read through
a null pointer.
---
 src/tinyfk.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 84bd434..a6b9d5b 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -9,6 +9,7 @@ tinyfk: https://github.com/HiroIshida/tinyfk
 #include <Eigen/Geometry>
 #include <cmath>
 #include <fstream>
+#include <limits>
 #include <stdexcept>
 
 namespace tinyfk {
@@ -189,7 +190,10 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->velocity;
+    // only continuous joints may come without limits
+    limits[i] = (joint->limits == nullptr)
+                    ? std::numeric_limits<double>::infinity()
+                    : joint->limits->velocity;
   }
   return limits;
 }
@@ -200,7 +204,10 @@ std::vector<double> KinematicModel::get_joint_effort_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->effort;
+    // only continuous joints may come without limits
+    limits[i] = (joint->limits == nullptr)
+                    ? std::numeric_limits<double>::infinity()
+                    : joint->limits->effort;
   }
   return limits;
 }
-- 
2.43.0


From f46bbbc79ec12aaf1abe74d964bf1f34e2d725e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 11/33] fix: load robots which have a link named like a
 centre-of-mass helper

A robot with inertial data for link X and a link X_com was rejected.
---
 src/tinyfk.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index a6b9d5b..1b9d6b4 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -102,7 +102,10 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
       if (link->inertial == nullptr) {
         continue;
       }
-      const auto com_dummy_link_name = link->name + "_com";
+      auto com_dummy_link_name = link->name + "_com";
+      while (link_ids_.find(com_dummy_link_name) != link_ids_.end()) {
+        com_dummy_link_name += "_"; // taken by a link of the description
+      }
       // the inertia tensor is given in the rotated inertial frame
       const Transform new_link_pose = link->inertial->origin;
       const auto new_link =
-- 
2.43.0


From 5735c9868e00a73a08cbc175540d50b5f7c20c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 12/33] fix: accept any white space between and after the
 numbers of attributes

Only single blanks were taken as separators, a tab, a line break or a
trailing blank made the description invalid.
---
 urdf_parser/include/urdf_model/color.h | 2 +-
 urdf_parser/include/urdf_model/pose.h  | 2 +-
 urdf_parser/include/urdf_model/utils.h | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/urdf_parser/include/urdf_model/color.h b/urdf_parser/include/urdf_model/color.h
index 2886571..f377063 100644
--- a/urdf_parser/include/urdf_model/color.h
+++ b/urdf_parser/include/urdf_model/color.h
@@ -67,7 +67,7 @@ public:
     this->clear();
     std::vector<std::string> pieces;
     std::vector<float> rgba;
-    urdf::split_string( pieces, vector_str, " ");
+    urdf::split_string( pieces, vector_str, " \t\n\r");
     for (unsigned int i = 0; i < pieces.size(); ++i)
     {
       if (!pieces[i].empty())
diff --git a/urdf_parser/include/urdf_model/pose.h b/urdf_parser/include/urdf_model/pose.h
index 691a96e..7957a06 100644
--- a/urdf_parser/include/urdf_model/pose.h
+++ b/urdf_parser/include/urdf_model/pose.h
@@ -72,7 +72,7 @@ public:
     this->clear();
     std::vector<std::string> pieces;
     std::vector<double> xyz;
-    urdf::split_string( pieces, vector_str, " ");
+    urdf::split_string( pieces, vector_str, " \t\n\r");
     for (unsigned int i = 0; i < pieces.size(); ++i){
       if (pieces[i] != ""){
         try {
diff --git a/urdf_parser/include/urdf_model/utils.h b/urdf_parser/include/urdf_model/utils.h
index f9f59c1..6a7093f 100644
--- a/urdf_parser/include/urdf_model/utils.h
+++ b/urdf_parser/include/urdf_model/utils.h
@@ -80,7 +80,12 @@ static inline double strToDouble(const char *in)
   double out;
   ss >> out;
 
-  if (ss.fail() || !ss.eof()) {
+  if (ss.fail()) {
+    throw std::runtime_error("Failed converting string to double");
+  }
+
+  // white space may follow the number, but nothing else
+  if (!ss.eof() && !(ss >> std::ws).eof()) {
     throw std::runtime_error("Failed converting string to double");
   }
 
-- 
2.43.0


From e529810f34a9080e82d7ebb49282d2167bfe27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 13/33] fix: export the origins of joints

The else branch, whose body is commented out, swallowed the statement.
---
 urdf_parser/src/joint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 82b43da..cad11d1 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -602,7 +602,9 @@ bool exportJoint(Joint &joint, TiXmlElement* xml)
   else if (joint.type == urdf::Joint::FIXED)
     joint_xml->SetAttribute("type", "fixed");
   else
+  {
     //CONSOLE_BRIDGE_logError("ERROR:  Joint [%s] type [%d] is not a defined type.\n",joint.name.c_str(), joint.type);
+  }
 
   // origin
   exportPose(joint.parent_to_joint_origin_transform, joint_xml);
-- 
2.43.0


From ab7beccd29abe8ee03a4be01c8e7a94b0fce4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 14/33] fix: export numbers independently of the global locale

---
 urdf_parser/src/pose.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/pose.cpp b/urdf_parser/src/pose.cpp
index 2b5961f..01b3dbc 100644
--- a/urdf_parser/src/pose.cpp
+++ b/urdf_parser/src/pose.cpp
@@ -37,6 +37,7 @@
 
 #include <urdf_model/pose.h>
 #include <fstream>
+#include <locale>
 #include <sstream>
 #include <algorithm>
 //#include <console_bridge/console.h>
@@ -48,6 +49,7 @@ namespace urdf_export_helpers {
 std::string values2str(unsigned int count, const double *values, double (*conv)(double))
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     for (unsigned int i = 0 ; i < count ; i++)
     {
         if (i > 0)
-- 
2.43.0


From d10034fa85de827b6fa503ec22fda9508356942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 15/33] fix: do not read past the end of text ending in a
 truncated UTF-8 character

---
 urdf_parser/tinyxml/tinyxml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxml.h b/urdf_parser/tinyxml/tinyxml.h
index 23694c6..7d0c693 100644
--- a/urdf_parser/tinyxml/tinyxml.h
+++ b/urdf_parser/tinyxml/tinyxml.h
@@ -350,10 +350,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i = 0;
+			for( ; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;	// a truncated character ends with the text
+			return p + i;
 		}
 		else
 		{
-- 
2.43.0


From bfc29565439866d8060f38a64ad8d60fd70dc5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 16/33] fix: compute the position in text ending in a truncated
 UTF-8 character

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 81b7eae..79e3c98 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,8 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+						{ ++p; ++col; }	// Truncated at the end of the text.
 				}
 				else
 				{
@@ -289,7 +291,9 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 					int step = TiXmlBase::utf8ByteTable[*((const unsigned char*)p)];
 					if ( step == 0 )
 						step = 1;		// Error case from bad encoding, but handle gracefully.
-					p += step;
+					// Don't advance past the terminating null character.
+					for( ++p; step > 1 && *p; --step )
+						++p;
 
 					// Just advance one column, of course.
 					++col;
-- 
2.43.0


From f3422a83124c9a991211d25c6f07976dff386f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 17/33] fix: do not search the whole document for the end of a
 character reference

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 79e3c98..e039508 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -458,9 +458,9 @@ const char* TiXmlBase::GetEntity( const char* p, char* value, int* length, TiXml
 			if ( !*(p+3) ) return 0;
 
 			const char* q = p+3;
-			q = strchr( q, ';' );
+			q += strspn( q, "0123456789abcdefABCDEF" );
 
-			if ( !q || !*q ) return 0;
+			if ( *q != ';' ) return 0;
 
 			delta = q-p;
 			--q;
@@ -485,9 +485,9 @@ const char* TiXmlBase::GetEntity( const char* p, char* value, int* length, TiXml
 			if ( !*(p+2) ) return 0;
 
 			const char* q = p+2;
-			q = strchr( q, ';' );
+			q += strspn( q, "0123456789" );
 
-			if ( !q || !*q ) return 0;
+			if ( *q != ';' ) return 0;
 
 			delta = q-p;
 			--q;
-- 
2.43.0


From 0b48f77dcac0212fb0fa38f0c631347a11f03e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 18/33] fix: stop streaming an element at an embedded null
 character

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index e039508..82840f0 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -953,6 +953,14 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				TiXmlText text( "" );
 				text.StreamIn( in, tag );
 
+				// Text which doesn't end with a tag can't be continued.
+				if ( in->good() && in->peek() <= 0 ) {
+					TiXmlDocument* document = GetDocument();
+					if ( document )
+						document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+					return;
+				}
+
 				// What follows text is a closing tag or another node.
 				// Go around again and figure it out.
 				continue;
-- 
2.43.0


From f1abc890ec2d40d5a6ae00cabf1838a0ec8148c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 19/33] fix: escape every ampersand when XML is written

---
 urdf_parser/tinyxml/tinyxml.cpp | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/urdf_parser/tinyxml/tinyxml.cpp b/urdf_parser/tinyxml/tinyxml.cpp
index 9c161df..fccd8dc 100644
--- a/urdf_parser/tinyxml/tinyxml.cpp
+++ b/urdf_parser/tinyxml/tinyxml.cpp
@@ -57,30 +57,7 @@ void TiXmlBase::EncodeString( const TIXML_STRING& str, TIXML_STRING* outString )
 	{
 		unsigned char c = (unsigned char) str[i];
 
-		if (    c == '&' 
-		     && i < ( (int)str.length() - 2 )
-			 && str[i+1] == '#'
-			 && str[i+2] == 'x' )
-		{
-			// Hexadecimal character reference.
-			// Pass through unchanged.
-			// &#xA9;	-- copyright symbol, for example.
-			//
-			// The -1 is a bug fix from Rob Laveaux. It keeps
-			// an overflow from happening if there is no ';'.
-			// There are actually 2 ways to exit this loop -
-			// while fails (error case) and break (semicolon found).
-			// However, there is no mechanism (currently) for
-			// this function to return an error.
-			while ( i<(int)str.length()-1 )
-			{
-				outString->append( str.c_str() + i, 1 );
-				++i;
-				if ( str[i] == ';' )
-					break;
-			}
-		}
-		else if ( c == '&' )
+		if ( c == '&' )
 		{
 			outString->append( entity[0].str, entity[0].strLength );
 			++i;
-- 
2.43.0


From 46981941c6f1226b89e5b32c1eca3778107b81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 20/33] fix: base pitch beyond a right angle reverses the pitch
 column of the Jacobian

---
 src/wrapper.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 663678d..befc183 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -6,6 +6,7 @@ tinyfk: https://github.com/HiroIshida/tinyfk
 
 #include "tinyfk.hpp"
 #include <Eigen/Dense>
+#include <cmath>
 #include <pybind11/detail/common.h>
 #include <pybind11/eigen.h>
 #include <pybind11/pybind11.h>
@@ -32,6 +33,7 @@ public:
     ++begin;
     pose.rotation.setFromRPY(*begin, *(begin + 1), *(begin + 2));
     KinematicModel::set_base_pose(pose);
+    base_pitch_reversed_ = std::cos(*(begin + 1)) < 0;
   }
 
   void set_base_pose(const std::vector<double> &xyzrpy) {
@@ -41,6 +43,20 @@ public:
     this->set_base_pose(xyzrpy.begin());
   }
 
+  Eigen::MatrixXd get_jacobian(size_t elink_id,
+                               const std::vector<size_t> &joint_ids,
+                               RotationType rot_type, bool with_base) {
+    return with_respect_to_given_base(
+        KinematicModel::get_jacobian(elink_id, joint_ids, rot_type, with_base),
+        with_base);
+  }
+
+  Eigen::MatrixXd get_com_jacobian(const std::vector<size_t> &joint_ids,
+                                   bool with_base) {
+    return with_respect_to_given_base(
+        KinematicModel::get_com_jacobian(joint_ids, with_base), with_base);
+  }
+
   std::vector<double> get_base_pose() {
     std::vector<double> base_vec(6);
     base_vec.at(0) = this->base_pose_.position[0];
@@ -241,6 +257,20 @@ public:
                     std::array<double, 3> rotation) {
     KinematicModel::add_new_link(link_name, parent_id, position, rotation);
   }
+
+private:
+  // The base columns of the Jacobian are derivatives with respect to principal
+  // roll, pitch and yaw. If the base was set with a pitch beyond +-90 degrees,
+  // the principal pitch goes in the opposite direction.
+  Eigen::MatrixXd with_respect_to_given_base(Eigen::MatrixXd jacobian,
+                                             bool with_base) const {
+    if (with_base && base_pitch_reversed_) {
+      jacobian.col(jacobian.cols() - 2) *= -1.0;
+    }
+    return jacobian;
+  }
+
+  bool base_pitch_reversed_ = false;
 };
 
 PYBIND11_MODULE(_tinyfk, m) {
-- 
2.43.0


From b18fcab10f0eec75682489b39555a1d118c3a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 21/33] fix: forward kinematics of an empty batch with a
 movable base

---
 src/wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index befc183..5c2f3d5 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -87,7 +87,8 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && (n_joints != joint_angles_sequence[0].size() - 6)) {
+    if (with_base && n_wp > 0 &&
+        (n_joints != joint_angles_sequence[0].size() - 6)) {
       throw std::invalid_argument(
           "dof mismatch!! Probably you forget base's (x, y, theta)");
       // TODO this check try to prevent the potentionally buggy procedure below
-- 
2.43.0


From 7475610934502ae9a8e3594d11b4a2ddc8a7ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 22/33] fix: clear the cache before solving for the centre of
 mass

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 5c2f3d5..13c9b88 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -157,6 +157,7 @@ public:
         auto xyzrpy_begin = std::prev(qs[i].end(), 6);
         set_base_pose(xyzrpy_begin);
       }
+      this->clear_cache();
 
       const auto com = this->get_com();
       coms(0, i) = com.x;
-- 
2.43.0


From f94d20b2c142931be49e0f68c09a381c1219edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 23/33] fix: clear the cache before computing the total inertia

---
 src/wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 13c9b88..c91095f 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -200,7 +200,7 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
-    this->_set_joint_angles(joint_ids, q);
+    this->set_joint_angles(joint_ids, q); // clears the cache
     return this->get_total_inertia_matrix();
   }
 
-- 
2.43.0


From b94d070fa4e0e0701940c672da9cdaa7019f5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 24/33] fix: planar base columns of the centre-of-mass Jacobian

---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 40376b7..780dd9c 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -193,6 +193,11 @@ class KinematicModel:
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
+        if base_type == BaseType.PLANER:
+            extrac_indices = np.hstack(
+                (np.arange(n_joint), np.array([n_joint, n_joint + 1, n_joint + 5]))
+            )
+            J = J[:, extrac_indices]
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
-- 
2.43.0


From 66c0fbc25cff8c380f1fb496691f54dda518cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 25/33] fix: centre of mass of a single configuration given as
 an array

---
 python/tinyfk/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 780dd9c..0533845 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -170,8 +170,8 @@ class KinematicModel:
 
         if not isinstance(qs, np.ndarray):
             qs = np.array(qs)
-            if qs.ndim == 1:
-                qs = np.expand_dims(qs, axis=0)
+        if qs.ndim == 1:
+            qs = np.expand_dims(qs, axis=0)
         assert isinstance(qs, np.ndarray)
         n_seq, n_dof = qs.shape
 
-- 
2.43.0


From f038ac5b5988d2d6dc0929750dd934786d2623d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 26/33] fix: reject unknown joint ids and too few joint angles

---
 include/tinyfk.hpp |  3 +++
 src/tinyfk.cpp     | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index 63ad270..2ddf005 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -156,6 +156,9 @@ public: // functions
   urdf::LinkSharedPtr add_new_link(const std::string &link_name,
                                    size_t parent_id, const Transform &pose);
 
+protected:
+  void check_joint_ids(const std::vector<size_t> &joint_ids) const;
+
 private:
   void get_link_pose_inner(size_t link_id, Transform &out_tf_root_to_ef) const;
   void update_rptable();
diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 1b9d6b4..7409d50 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -131,11 +131,26 @@ void KinematicModel::set_joint_angles(const std::vector<size_t> &joint_ids,
 void KinematicModel::_set_joint_angles(
     const std::vector<size_t> &joint_ids,
     const std::vector<double> &joint_angles) {
+  // NOTE: batch solvers pass the base pose after the joint angles
+  if (joint_angles.size() < joint_ids.size()) {
+    throw std::invalid_argument("fewer joint angles than joints");
+  }
+  this->check_joint_ids(joint_ids);
   for (size_t i = 0; i < joint_ids.size(); i++) {
     joint_angles_[joint_ids[i]] = joint_angles[i];
   }
 }
 
+void KinematicModel::check_joint_ids(
+    const std::vector<size_t> &joint_ids) const {
+  for (const size_t joint_id : joint_ids) {
+    if (joint_id >= joints_.size()) {
+      throw std::out_of_range("no joint has the id " +
+                              std::to_string(joint_id));
+    }
+  }
+}
+
 void KinematicModel::_set_base_pose(Transform pose) { this->base_pose_ = pose; }
 
 void KinematicModel::clear_cache() { transform_cache_.clear(); }
@@ -148,6 +163,7 @@ void KinematicModel::set_init_angles() {
 
 std::vector<double>
 KinematicModel::get_joint_angles(const std::vector<size_t> &joint_ids) const {
+  this->check_joint_ids(joint_ids);
   std::vector<double> angles(joint_ids.size());
   for (size_t i = 0; i < joint_ids.size(); i++) {
     int idx = joint_ids[i];
@@ -172,6 +188,7 @@ KinematicModel::get_joint_ids(std::vector<std::string> joint_names) const {
 
 std::vector<Bound> KinematicModel::get_joint_position_limits(
     const std::vector<size_t> &joint_ids) const {
+  this->check_joint_ids(joint_ids);
   const size_t n_joint = joint_ids.size();
   std::vector<Bound> limits(n_joint, Bound());
   for (size_t i = 0; i < n_joint; i++) {
@@ -189,6 +206,7 @@ std::vector<Bound> KinematicModel::get_joint_position_limits(
 
 std::vector<double> KinematicModel::get_joint_velocity_limits(
     const std::vector<size_t> &joint_ids) const {
+  this->check_joint_ids(joint_ids);
   const size_t n_joint = joint_ids.size();
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
@@ -203,6 +221,7 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
 
 std::vector<double> KinematicModel::get_joint_effort_limits(
     const std::vector<size_t> &joint_ids) const {
+  this->check_joint_ids(joint_ids);
   const size_t n_joint = joint_ids.size();
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
-- 
2.43.0


From 265e0ea4b19bcf716648af399c76acf6dd745c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 27/33] fix: reject an unknown parent when a link is added

---
 include/tinyfk.hpp | 1 +
 src/tinyfk.cpp     | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index 2ddf005..a876dec 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -158,6 +158,7 @@ public: // functions
 
 protected:
   void check_joint_ids(const std::vector<size_t> &joint_ids) const;
+  void check_link_ids(const std::vector<size_t> &link_ids) const;
 
 private:
   void get_link_pose_inner(size_t link_id, Transform &out_tf_root_to_ef) const;
diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 7409d50..4fc7c05 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -151,6 +151,14 @@ void KinematicModel::check_joint_ids(
   }
 }
 
+void KinematicModel::check_link_ids(const std::vector<size_t> &link_ids) const {
+  for (const size_t link_id : link_ids) {
+    if (link_id >= links_.size()) {
+      throw std::out_of_range("no link has the id " + std::to_string(link_id));
+    }
+  }
+}
+
 void KinematicModel::_set_base_pose(Transform pose) { this->base_pose_ = pose; }
 
 void KinematicModel::clear_cache() { transform_cache_.clear(); }
@@ -268,6 +276,7 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
     std::string message = "link name " + link_name + " already exists";
     throw std::invalid_argument("link name : " + link_name + " already exists");
   }
+  this->check_link_ids({parent_id});
 
   auto fixed_joint = std::make_shared<urdf::Joint>();
 
-- 
2.43.0


From cc1c721f4548d05b2c99ac03a3b293712f216029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 28/33] fix: reject ill-formed batch requests before any effect

---
 src/wrapper.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index c91095f..650822b 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -87,12 +87,8 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && n_wp > 0 &&
-        (n_joints != joint_angles_sequence[0].size() - 6)) {
-      throw std::invalid_argument(
-          "dof mismatch!! Probably you forget base's (x, y, theta)");
-      // TODO this check try to prevent the potentionally buggy procedure below
-    }
+    check_batch(joint_angles_sequence, joint_ids, with_base);
+    check_link_ids(elink_ids);
 
     Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n_pose_dim, n_wp * n_link);
     Eigen::MatrixXd J =
@@ -149,6 +145,12 @@ public:
     const size_t n_wp = qs.size();
     const size_t n_dof = joint_ids.size() + with_base * 6;
 
+    check_batch(qs, joint_ids, with_base);
+    check_link_ids(action_link_ids);
+    if (forces.size() != action_link_ids.size()) {
+      throw std::invalid_argument("one force per action link is required");
+    }
+
     Eigen::MatrixXd coms = Eigen::MatrixXd::Zero(3, n_wp);
     Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3 * n_wp, n_dof);
     for (size_t i = 0; i < n_wp; ++i) {
@@ -200,6 +202,7 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
+    check_batch({q}, joint_ids, false);
     this->set_joint_angles(joint_ids, q); // clears the cache
     return this->get_total_inertia_matrix();
   }
@@ -215,6 +218,13 @@ public:
     const size_t n_joint = joint_ids.size() + with_base * 6;
     const size_t n_check = link_ids1.size();
 
+    check_batch(qs, joint_ids, with_base);
+    check_link_ids(link_ids1);
+    check_link_ids(link_ids2);
+    if (link_ids1.size() != link_ids2.size()) {
+      throw std::invalid_argument("link pairs are required");
+    }
+
     Eigen::VectorXd sqdists = Eigen::VectorXd::Zero(n_check * n_wp);
     Eigen::MatrixXd grads = with_grads
                                 ? Eigen::MatrixXd::Zero(n_check * n_wp, n_joint)
@@ -261,6 +271,18 @@ public:
   }
 
 private:
+  // must be called before any change of the state
+  void check_batch(const std::vector<std::vector<double>> &qs,
+                   const std::vector<size_t> &joint_ids, bool with_base) const {
+    check_joint_ids(joint_ids);
+    for (const auto &q : qs) {
+      if (q.size() != joint_ids.size() + (with_base ? 6 : 0)) {
+        throw std::invalid_argument(
+            "dof mismatch!! Probably you forget base's (x, y, theta)");
+      }
+    }
+  }
+
   // The base columns of the Jacobian are derivatives with respect to principal
   // roll, pitch and yaw. If the base was set with a pitch beyond +-90 degrees,
   // the principal pitch goes in the opposite direction.
-- 
2.43.0


From 46e5c3baab3b2252fbfb06961847d1168c948d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 29/33] fix: pickle the configuration instead of a history of
 set_q

---
 python/tinyfk/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 0533845..a12f5c1 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -40,9 +40,8 @@ class RotationType(Enum):
 
 # higher layer wrap
 class KinematicModel:
-    # these histories will be used in de-pickling
+    # this history will be used in de-pickling
     _add_new_link_history: List[Any] = []
-    _set_joint_angles_history: List[Any] = []
 
     def __init__(self, urdfpath=None, xml_text=None):
         assert (urdfpath is None) ^ (xml_text is None)
@@ -53,7 +52,6 @@ class KinematicModel:
         self._robot = _tinyfk.RobotModel(xml_text)
 
         self._add_new_link_history = []
-        self._set_joint_angles_history = []
 
     @property
     def root_link_name(self) -> str:
@@ -77,9 +75,6 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
-        args = [joint_ids, q, base_type]
-        self._set_joint_angles_history.append(args)
-
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
             joint_angles, base_xytheta = q[:-3], q[-3:]
@@ -280,16 +275,21 @@ class KinematicModel:
     def __getstate__(self):  # pickling
         state = self.__dict__.copy()
         state["_robot"] = None
+        # the configuration is changed by the solvers too, not only by set_q
+        joint_ids = self.get_joint_ids(self.get_joint_names())
+        state["_q"] = self.get_q(joint_ids, BaseType.FLOATING)
         return state
 
     def __setstate__(self, state):  # unpickling
+        state = state.copy()
+        q = state.pop("_q")
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
         for arg in copy.deepcopy(self._add_new_link_history):
             self.add_new_link(*arg)
 
-        for arg in copy.deepcopy(self._set_joint_angles_history):
-            self.set_q(*arg)
         self._add_new_link_history = []
-        self._set_joint_angles_history = []
+
+        joint_ids = self.get_joint_ids(self.get_joint_names())
+        self.set_q(joint_ids, q, BaseType.FLOATING)
-- 
2.43.0


From 9d98b9b3e3a71aa8872ce6d3ff9af1ddd413f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 30/33] fix: copies of copied models keep the added links

---
 python/tinyfk/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index a12f5c1..efb172c 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -275,6 +275,8 @@ class KinematicModel:
     def __getstate__(self):  # pickling
         state = self.__dict__.copy()
         state["_robot"] = None
+        # copy.copy must not let the copy share the list
+        state["_add_new_link_history"] = list(self._add_new_link_history)
         # the configuration is changed by the solvers too, not only by set_q
         joint_ids = self.get_joint_ids(self.get_joint_names())
         state["_q"] = self.get_q(joint_ids, BaseType.FLOATING)
@@ -286,10 +288,10 @@ class KinematicModel:
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
-        for arg in copy.deepcopy(self._add_new_link_history):
-            self.add_new_link(*arg)
-
+        history = copy.deepcopy(self._add_new_link_history)
         self._add_new_link_history = []
+        for arg in history:
+            self.add_new_link(*arg)  # recorded again for copies of the copy
 
         joint_ids = self.get_joint_ids(self.get_joint_names())
         self.set_q(joint_ids, q, BaseType.FLOATING)
-- 
2.43.0


From 7537312441468d2ea38c40a4f63cf06c28d09fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 31/33] fix: record added links after they were added and by
 value

---
 python/tinyfk/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index efb172c..c48a53d 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -223,13 +223,14 @@ class KinematicModel:
     def add_new_link(
         self, link_name: str, parent_id: int, position: np.ndarray, rpy: Optional[np.ndarray] = None
     ):
-        args = [link_name, parent_id, position, rpy]
-        self._add_new_link_history.append(args)
-
         if rpy is None:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
 
+        # only successful additions are recorded, with copies of the arrays
+        args = [link_name, parent_id, np.array(position), np.array(rpy)]
+        self._add_new_link_history.append(args)
+
     def compute_inter_link_sqdists(
         self,
         qs: Union[List[np.ndarray], np.ndarray],
-- 
2.43.0


From 8cf1b875212b4f20928ddacc072e28b4c8e72a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 32/33] fix: reject link pairs of other than two links

---
 python/tinyfk/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index c48a53d..f3c4197 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -241,6 +241,8 @@ class KinematicModel:
         use_cache: bool = False,
     ) -> Tuple[np.ndarray, np.ndarray]:
 
+        assert all(len(pair) == 2 for pair in link_id_pairs)
+
         if base_type == BaseType.PLANER:
             if isinstance(qs, list):
                 qs = np.array(qs)
-- 
2.43.0


From 6732af25e5244fead5b7bade3f0d08b09b086284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 33/33] fix: complete the download cache of sample robots after
 failures and races

---
 python/tinyfk/__init__.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index f3c4197..0c00394 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -1,5 +1,6 @@
 import copy
 import os
+import uuid
 from enum import Enum
 from pathlib import Path
 from typing import Any, List, Optional, Tuple, Union
@@ -10,12 +11,27 @@ import numpy as np
 from . import _tinyfk  # type: ignore
 
 _cache_dir = Path("~/.tinyfk").expanduser()
-if not _cache_dir.exists():
-    _cache_dir.mkdir()
-    addr_pr2 = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/pr2.urdf"
-    addr_fetch = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/fetch.urdf"
-    urlretrieve(addr_pr2, os.path.join(_cache_dir, "pr2.urdf"))
-    urlretrieve(addr_fetch, os.path.join(_cache_dir, "fetch.urdf"))
+_sample_url = "https://raw.githubusercontent.com/HiroIshida/tinyfk/master/data/"
+
+
+def _download_sample(filename: str) -> None:
+    path = _cache_dir / filename
+    if path.exists():
+        return
+    _cache_dir.mkdir(exist_ok=True)
+    # An unfinished download must never be taken for the file itself, even if
+    # this process is killed or another one is downloading at the same time.
+    path_tmp = _cache_dir / "{}.{}.part".format(filename, uuid.uuid4().hex)
+    try:
+        urlretrieve(_sample_url + filename, str(path_tmp))
+        os.replace(str(path_tmp), str(path))
+    finally:
+        if path_tmp.exists():
+            path_tmp.unlink()
+
+
+_download_sample("pr2.urdf")
+_download_sample("fetch.urdf")
 
 
 def pr2_urdfpath():
-- 
2.43.0

