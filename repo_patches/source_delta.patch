From 9e0edf1b4e2e1a1e8a17e5cee0306c78743b29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:19 +0000
Subject: [PATCH 01/51] fix: per-loop progress counter in the OpenMP parallel
 loop

The per-thread counter was thread_local and survived the end of a loop, so
the progress of the next loop could exceed its number of samples.
---
 src/parallel/parallel_openmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index a670d2c..4105155 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -45,7 +45,8 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel for schedule(dynamic, 1)
+        long long count = 0;    // Number of samples processed by the current thread since the last update
+        #pragma omp parallel for schedule(dynamic, 1) firstprivate(count)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
@@ -74,7 +75,7 @@ public:
                 processFunc(i, thread_id);
 
                 // Update processed number of samples
-                if (thread_local long long count = 0; ++count >= progress_update_interval_) {
+                if (++count >= progress_update_interval_) {
                     processed += count;
                     count = 0;
                 }
-- 
2.43.0


From 09b520435bfffc104dcb9a1efd2d316412e1138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:40 +0000
Subject: [PATCH 02/51] fix: data race on the termination flag of the BVH
 builder

The flag was a plain bool read by the worker threads without holding the lock.
---
 src/accel/accel_sahbvh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 33ab6b0..b6faddf 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -167,7 +167,7 @@ public:
         std::condition_variable cv;     // For concurrent queue
         std::atomic<int> pr = 0;        // Processed triangles
         std::atomic<int> nn = 1;        // Number of current nodes
-        bool done = 0;                  // True if the build process is done
+        std::atomic<bool> done = false; // True if the build process is done
 
         auto process = [&]() {
             while (!done) {
@@ -210,7 +210,7 @@ public:
                     pr += e - s;
                     if (pr == int(trs_.size())) {
                         std::unique_lock<std::mutex> lk(mu);
-                        done = 1;
+                        done = true;
                         cv.notify_all();
                     }
                 };
-- 
2.43.0


From bc4b05e474eee1c34b40c0b7c653ea404cd36b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:40 +0000
Subject: [PATCH 03/51] fix: building the BVH of a scene without triangles
 threw length_error

---
 src/accel/accel_sahbvh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index b6faddf..1a4d18f 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -160,7 +160,7 @@ public:
         };
         std::queue<Entry> q;            // Queue for traversal (node index, start, end)
         q.push({0, 0, nt});             // Initialize the queue with root node
-        nodes_.assign(2*nt-1, {});      // Maximum number of nodes: 2*nt-1
+        nodes_.assign(std::max(2*nt-1, 1), {}); // Maximum number of nodes: 2*nt-1 (at least the root)
         indices_.assign(nt, 0);
         std::iota(indices_.begin(), indices_.end(), 0);
         std::mutex mu;                  // For concurrent queue
-- 
2.43.0


From 722e58df4d083ce99d9e6c4421575b337be1220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:13 +0000
Subject: [PATCH 04/51] fix: stack overflow when traversing BVHs deeper than 99
 levels

The fixed size traversal stack was overrun by unbalanced trees.
---
 src/accel/accel_sahbvh.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 1a4d18f..b04ef30 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -270,16 +270,17 @@ public:
         exception::ScopedDisableFPEx guard_;  // Disable floating point exceptions
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
-        int s[99]{};
-        int si = 0;
-        while (si >= 0) {
-            auto& n = nodes_.at(s[si--]);
+        thread_local std::vector<int> s; // Traversal stack (the depth of the tree is not bounded)
+        s.assign(1, 0);
+        while (!s.empty()) {
+            auto& n = nodes_.at(s.back());
+            s.pop_back();
             if (!n.b.isect(ray, tmin, tmax)) {
                 continue;
             }
             if (!n.leaf) {
-                s[++si] = n.c1;
-                s[++si] = n.c2;
+                s.push_back(n.c1);
+                s.push_back(n.c2);
                 continue;
             }
             for (int i = n.s; i < n.e; i++) {
-- 
2.43.0


From a0599f53788d36a47ba00cd2ab1f2579adefc5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:11 +0000
Subject: [PATCH 05/51] fix: failed construction of an asset lost the existing
 asset or left a broken one registered

---
 src/assetgroup.cpp | 52 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7f33502..9d8be08 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -41,6 +41,15 @@ private:
         return std::regex_match(name, match, regex);
     }
 
+    // Deregister an asset of which the initialization failed
+    void unregister(const std::string& name, int index) {
+        asset_index_map_.erase(name);
+        assets_[index].reset();
+        if (index + 1 == int(assets_.size())) {
+            assets_.pop_back();
+        }
+    }
+
 public:
     virtual Component* load_asset(const std::string& name, const std::string& impl_key, const Json& prop) override {
         LM_INFO("Loading asset [name='{}']", name);
@@ -74,15 +83,22 @@ public:
             // Move existing instance
             // This must not be released until the end of this scope
             // because weak references needs to find locator in the existing instance.
-            auto old = std::move(assets_[it->second]);
+            const int index = it->second;
+            auto old = std::move(assets_[index]);
 
             // Replace the existing instance
-            assets_[it->second] = std::move(p);
-            asset = assets_[it->second].get();
+            assets_[index] = std::move(p);
+            asset = assets_[index].get();
 
             // Initialize the asset
-            // This might cause an exception
-            asset->construct(prop);
+            // This might cause an exception. In this case keep the existing instance.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                assets_[index] = std::move(old);
+                throw;
+            }
 
             // Notify to update the weak references in the object tree
             const Component::ComponentVisitor visitor = [&](Component*& comp, bool weak) {
@@ -104,12 +120,20 @@ public:
         }
         else {
             // Register as a new asset
-            asset_index_map_[name] = int(assets_.size());
+            const int index = int(assets_.size());
+            asset_index_map_[name] = index;
             assets_.push_back(std::move(p));
             asset = assets_.back().get();
 
             // Initialize the asset
-            asset->construct(prop);
+            // This might cause an exception. In this case deregister the asset.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                unregister(name, index);
+                throw;
+            }
         }
 
         return asset;
@@ -127,12 +151,20 @@ public:
         // Register the asset
         // This must happen before deserialization because
         // the loading process might refer to the underlying component via locator.
-        asset_index_map_[name] = int(assets_.size());
+        const int index = int(assets_.size());
+        asset_index_map_[name] = index;
         assets_.emplace_back();
      
         // Deserialize the asset
-        std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, assets_.back(), make_loc(name));
+        // This might cause an exception. In this case deregister the asset.
+        try {
+            std::ifstream is(path, std::ios::in | std::ios::binary);
+            serial::load_comp(is, assets_.back(), make_loc(name));
+        }
+        catch (...) {
+            unregister(name, index);
+            throw;
+        }
 
         return assets_.back().get();
     }
-- 
2.43.0


From 12e16ed7f6fac9a6e7040f63fae0e9649b1e66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:09 +0000
Subject: [PATCH 06/51] fix: renderers could not be saved and restored
 (scheduler unreachable by locator, missing fields)

---
 src/renderer/renderer_bdpt.cpp    | 18 ++++++++++++++++++
 src/renderer/renderer_bdptopt.cpp | 28 ++++++++++++++++++++++------
 src/renderer/renderer_lt.cpp      |  7 +++++++
 src/renderer/renderer_pt.cpp      |  9 ++++++++-
 src/renderer/renderer_raycast.cpp |  2 +-
 src/renderer/renderer_volpt.cpp   |  9 ++++++++-
 6 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index d3aedfa..872a0cd 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -44,6 +44,24 @@ public:
     std::optional<unsigned int> seed_;              // Random seed
     Component::Ptr<scheduler::Scheduler> sched_;    // Scheduler for parallel processing
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c4d2435..8b1dfdd 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -433,6 +433,28 @@ private:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
     #endif
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        #if BDPT_PER_STRATEGY_FILM
+        return strategy_film_name_map_.at(name);
+        #else
+        return nullptr;
+        #endif
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -461,12 +483,6 @@ public:
         #endif
     }
 
-    #if BDPT_PER_STRATEGY_FILM
-    virtual Component* underlying(const std::string& name) const override {
-        return strategy_film_name_map_.at(name);
-    }
-    #endif
-
     virtual Json render() const override {
         scene_->require_renderable();
         film_->clear();
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index d22038e..ea2e9ed 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -34,6 +34,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 4427681..f9dd68a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -38,7 +38,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, sampling_mode_, sched_);
+        ar(scene_, film_, max_verts_, seed_, sampling_mode_, primary_ray_sampling_mode_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -47,6 +47,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index ed2fbd9..5667438 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -28,7 +28,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, sched_);
+        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, color_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4fc1743..e60f1c3 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -27,7 +27,7 @@ protected:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, rr_prob_, sched_);
+        ar(scene_, film_, max_verts_, rr_prob_, seed_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -36,6 +36,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
-- 
2.43.0


From e9bf854b0c80ef2393f60ff8f54bce4f20cf0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:41 +0000
Subject: [PATCH 07/51] fix: light::env, texture::constant, volume::constant,
 medium::homogeneous and the scene lost fields when saved

---
 src/light/light_env.cpp           | 2 +-
 src/medium/medium_homogeneous.cpp | 2 +-
 src/scene.cpp                     | 2 +-
 src/texture/texture_constant.cpp  | 2 +-
 src/volume/volume_constant.cpp    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index bdcefd2..135cd57 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -33,7 +33,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(sphere_bound_, envmap_, rot_, dist_);
+        ar(sphere_bound_, envmap_, rot_, dist_, scale_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visitor) override {
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 62839cb..59cbce2 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -34,7 +34,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(density_, muA_, muS_, phase_, bound_);
+        ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
 public:
diff --git a/src/scene.cpp b/src/scene.cpp
index a10acf8..a68bafa 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_);
+        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_, medium_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/texture/texture_constant.cpp b/src/texture/texture_constant.cpp
index 48c0414..e58fa41 100644
--- a/src/texture/texture_constant.cpp
+++ b/src/texture/texture_constant.cpp
@@ -26,7 +26,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(color_);
+		ar(color_, alpha_);
 	}
 
 public:
diff --git a/src/volume/volume_constant.cpp b/src/volume/volume_constant.cpp
index 1186288..22b60ef 100644
--- a/src/volume/volume_constant.cpp
+++ b/src/volume/volume_constant.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(bound_);
+		ar(bound_, color_, scalar_);
 	}
 
 public:
-- 
2.43.0


From 077ca802907d7d54de90b8e14cf4216859dd06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:59 +0000
Subject: [PATCH 08/51] fix: weak references held by media, volume::multi and
 the scene's medium were not followed

---
 src/medium/medium_heterogeneous.cpp | 12 +++++++++---
 src/medium/medium_homogeneous.cpp   |  6 +++++-
 src/scene.cpp                       |  1 +
 src/volume/volume_multi.cpp         |  9 +++++++++
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 4731d4d..468c409 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -25,15 +25,21 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Medium_Heterogeneous final : public Medium {
 private:
-    const Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
-    const Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
-    const Phase* phase_;            // Underlying phase function.
+    Volume* volume_density_;        // Density volume. density := \mu_t = \mu_a + \mu_s
+    Volume* volme_albedo_;	        // Albedo volume. albedo := \mu_s / \mu_t
+    Phase* phase_;                  // Underlying phase function.
 
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(volume_density_, volme_albedo_, phase_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, volume_density_);
+        comp::visit(visit, volme_albedo_);
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 59cbce2..55f9678 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -29,7 +29,7 @@ private:
     Vec3 albedo_;           // Albedo of volume := \mu_s / \mu_t
     Vec3 muA_;              // Absorption coefficient.
     Vec3 muS_;              // Scattering coefficient.
-    const Phase* phase_;    // Underlying phase function.
+    Phase* phase_;          // Underlying phase function.
     Bound bound_;
 
 public:
@@ -37,6 +37,10 @@ public:
         ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         density_ = json::value<Float>(prop, "density");
diff --git a/src/scene.cpp b/src/scene.cpp
index a68bafa..f3d8556 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -40,6 +40,7 @@ public:
                 comp::visit(visit, node.primitive.material);
                 comp::visit(visit, node.primitive.light);
                 comp::visit(visit, node.primitive.camera);
+                comp::visit(visit, node.primitive.medium);
             }
         }
     }
diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 03bafce..93fd841 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -32,6 +32,15 @@ public:
         ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        for (auto& v : volumes_den_) {
+            comp::visit(visit, v);
+        }
+        for (auto& v : volumes_alb_) {
+            comp::visit(visit, v);
+        }
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         // Currently no straightforward way to use json::comp_ref<Volume>() on an array
-- 
2.43.0


From e54b772b9fab8eb321c240270c9441a35df809b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:16 +0000
Subject: [PATCH 09/51] fix: references to assets whose name extends the name
 of the saved asset were not rejected when saving a subtree

---
 include/lm/serial.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 3fbf2ca..1f9c1b3 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -98,6 +98,14 @@ void load(Archive& ar, std::atomic<T>& v) {
 
 // ------------------------------------------------------------------------------------------------
 
+/*
+    Check if the locator specifies the component of the root locator or one of its descendants.
+*/
+inline bool is_loc_in_subtree(const std::string& loc, const std::string& root_loc) {
+    return loc.rfind(root_loc, 0) == 0
+        && (loc.size() == root_loc.size() || loc[root_loc.size()] == '.');
+}
+
 /*
     Save owned pointer.
 */
@@ -135,8 +143,8 @@ void save_owned(Archive& ar, T* p) {
             // If the root locator is specified, serialize the locator relative to the root.
 
             // Consistency testing
-            // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            // Current locator must be in the subtree of root_loc
+            if (!cereal::is_loc_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -251,8 +259,8 @@ serialize(lm::OutputArchive& ar, T*& p) {
             // If the root locator is specified, serialize the locator relative to the root.
 
             // Consistency testing
-            // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            // Current locator must be in the subtree of root_loc
+            if (!cereal::is_loc_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -369,9 +377,9 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
         }
         if (weak) {
             // Check if the weak reference is referring to an asset in the subtree
-            // by checking if the locator starts with root_loc.
+            // by checking if the locator is in the subtree of root_loc.
             const auto loc = visiting_comp->loc();
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!cereal::is_loc_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(Error::Unsupported,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
-- 
2.43.0


From 57462460f008ee6e68895c5f641aac6e80618c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 10/51] fix: a failed load of a state file left a half-loaded
 asset tree

---
 include/lm/serial.h |  4 +++-
 src/user.cpp        | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 1f9c1b3..8764149 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -213,7 +213,9 @@ void load(Archive& ar, lm::Component::Ptr<T>& p) {
         // Be careful not to call construct() function here
         p = lm::comp::create_without_construct<T>(key, loc);
         if (!p) {
-            return;
+            // We cannot skip the contents of the component
+            LM_THROW_EXCEPTION(lm::Error::IOError,
+                "Failed to create component while loading [key='{}', loc='{}']", key, loc);
         }
 
         // Load the contents
diff --git a/src/user.cpp b/src/user.cpp
index 9c46794..571913d 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -108,7 +108,16 @@ public:
 
     void load_state_from_file(const std::string& path) {
         std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, root_assets_, root_assets_->loc());
+        // This might cause an exception. In this case keep the existing assets.
+        const auto loc = root_assets_->loc();
+        auto old = std::move(root_assets_);
+        try {
+            serial::load_comp(is, root_assets_, loc);
+        }
+        catch (...) {
+            root_assets_ = std::move(old);
+            throw;
+        }
     }
 };
 
-- 
2.43.0


From 3a7cb88eed9e559475235f875f585aea2515e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 11/51] fix: unknown child name in a locator of
 model::wavefrontobj threw std::out_of_range

---
 src/model/model_wavefrontobj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 343c9a8..c787fec 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -68,7 +68,8 @@ public:
 
 public:
     virtual Component* underlying(const std::string& name) const override {
-        return assets_[assets_map_.at(name)].get();
+        const auto it = assets_map_.find(name);
+        return it != assets_map_.end() ? assets_[it->second].get() : nullptr;
     }
 
 	virtual void construct(const Json& prop) override {
-- 
2.43.0


From d2654378aa3359eac6d73b1de2ab53c082f059b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:26 +0000
Subject: [PATCH 12/51] fix: mesh::raw read past its parameters when they were
 missing or inconsistent

---
 src/mesh/mesh_raw.cpp | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/mesh/mesh_raw.cpp b/src/mesh/mesh_raw.cpp
index 190c4a0..830becd 100644
--- a/src/mesh/mesh_raw.cpp
+++ b/src/mesh/mesh_raw.cpp
@@ -48,22 +48,41 @@ public:
 
 public:
     virtual void construct(const Json& prop) override {
-        const auto& ps = prop["ps"];
-        for (int i = 0; i < ps.size(); i+=3) {
-            ps_.push_back(Vec3(ps[i],ps[i+1],ps[i+2]));
+        const auto ps = json::value<std::vector<Float>>(prop, "ps");
+        const auto ns = json::value<std::vector<Float>>(prop, "ns");
+        const auto ts = json::value<std::vector<Float>>(prop, "ts");
+        const auto fs = json::value<Json>(prop, "fs");
+        const auto fp = json::value<std::vector<int>>(fs, "p");
+        const auto ft = json::value<std::vector<int>>(fs, "t");
+        const auto fn = json::value<std::vector<int>>(fs, "n");
+
+        // Check validity
+        if (ps.size() % 3 != 0 || ns.size() % 3 != 0 || ts.size() % 2 != 0 ||
+            fp.size() % 3 != 0 || ft.size() != fp.size() || fn.size() != fp.size()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid number of elements in the vertex data or the index list.");
         }
-        const auto& ns = prop["ns"];
-        for (int i = 0; i < ns.size(); i+=3) {
-            ns_.push_back(Vec3(ns[i],ns[i+1],ns[i+2]));
+        const auto check_indices = [](const std::vector<int>& indices, size_t n) {
+            for (const int i : indices) {
+                if (i < 0 || size_t(i) >= n) {
+                    LM_THROW_EXCEPTION(Error::InvalidArgument, "Index is out of range [index={}, size={}]", i, n);
+                }
+            }
+        };
+        check_indices(fp, ps.size() / 3);
+        check_indices(ft, ts.size() / 2);
+        check_indices(fn, ns.size() / 3);
+
+        for (size_t i = 0; i < ps.size(); i += 3) {
+            ps_.push_back(Vec3(ps[i], ps[i+1], ps[i+2]));
+        }
+        for (size_t i = 0; i < ns.size(); i += 3) {
+            ns_.push_back(Vec3(ns[i], ns[i+1], ns[i+2]));
         }
-        const auto& ts = prop["ts"];
-        for (int i = 0; i < ts.size(); i+=2) {
-            ts_.push_back(Vec2(ts[i],ts[i+1]));
+        for (size_t i = 0; i < ts.size(); i += 2) {
+            ts_.push_back(Vec2(ts[i], ts[i+1]));
         }
-        const auto& fs = prop["fs"];
-        const int fs_size = int(fs["p"].size());
-        for (int i = 0; i < fs_size; i++) {
-            fs_.push_back(MeshFaceIndex{ fs["p"][i],fs["t"][i],fs["n"][i] });
+        for (size_t i = 0; i < fp.size(); i++) {
+            fs_.push_back(MeshFaceIndex{ fp[i], ft[i], fn[i] });
         }
     }
 
-- 
2.43.0


From 8201d56571f59a3746a55e93b69f4e7981ef3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:15 +0000
Subject: [PATCH 13/51] fix: adding a missing node or an ancestor as a child of
 a scene node corrupted the scene graph

---
 src/scene.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index f3d8556..bf588ba 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -141,6 +141,26 @@ public:
         return index;
     }
 
+    // Check if the target node is reachable from the given node
+    bool is_reachable(int from, int target) const {
+        std::vector<bool> visited(nodes_.size(), false);
+        std::vector<int> stack{ from };
+        while (!stack.empty()) {
+            const int index = stack.back();
+            stack.pop_back();
+            if (index == target) {
+                return true;
+            }
+            if (visited[index]) {
+                continue;
+            }
+            visited[index] = true;
+            const auto& children = nodes_[index].group.children;
+            stack.insert(stack.end(), children.begin(), children.end());
+        }
+        return false;
+    }
+
     virtual void add_child(int parent, int child) override {
         if (parent < 0 || parent >= int(nodes_.size())) {
             LM_ERROR("Missing parent index [index='{}'", parent);
@@ -153,6 +173,15 @@ public:
             return;
         }
 
+        if (child < 0 || child >= int(nodes_.size())) {
+            LM_ERROR("Missing child index [index='{}']", child);
+            return;
+        }
+        if (is_reachable(child, parent)) {
+            LM_ERROR("Adding child makes a cycle in the scene graph [parent='{}', child='{}']", parent, child);
+            return;
+        }
+
         node.group.children.push_back(child);
     }
 
-- 
2.43.0


From 0f4facb5aa8734738bfafb431b6110558aae97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 14/51] fix: creating a component with an interface it does not
 have leaked the instance

---
 include/lm/component.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/lm/component.h b/include/lm/component.h
index 314e509..a70b016 100644
--- a/include/lm/component.h
+++ b/include/lm/component.h
@@ -569,7 +569,14 @@ Component::Ptr<InterfaceT> create_without_construct(const std::string& key, cons
         return {};
     }
     detail::Access::loc(inst) = loc;
-    return Component::Ptr<InterfaceT>(dynamic_cast<InterfaceT*>(inst));
+    // Hold the instance so that it is released if it does not have the requested interface
+    Component::Ptr<Component> holder(inst);
+    auto* p = dynamic_cast<InterfaceT*>(inst);
+    if (!p) {
+        return {};
+    }
+    holder.release();
+    return Component::Ptr<InterfaceT>(p);
 }
 
 /*!
-- 
2.43.0


From 4915f964233f4670c98042aa6d5cfe04d25ed5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 15/51] fix: plugins of a plugin directory were looked up
 outside of the directory, and a failing one aborted the rest

---
 src/component.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/component.cpp b/src/component.cpp
index 999aa57..ceb7235 100644
--- a/src/component.cpp
+++ b/src/component.cpp
@@ -295,7 +295,15 @@ public:
             if (!std::regex_match(filename.c_str(), match, pluginNameExp)) {
                 continue;
             }
-            load_plugin(it->path().stem().string().c_str());
+            try {
+                load_plugin((it->path().parent_path() / it->path().stem()).string());
+            }
+            catch (const Exception& e) {
+                // Failure is reported but ignored
+                LM_ERROR("Failed to load plugin [name='{}']", filename);
+                LM_INDENT();
+                LM_ERROR("{}", e.what());
+            }
         }
     }
 
-- 
2.43.0


From 9f5e22103a256a7e33ef913fe346accff8ac414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:33 +0000
Subject: [PATCH 16/51] fix: asset functions crashed when the framework was not
 initialized

---
 src/user.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/user.cpp b/src/user.cpp
index 571913d..21b155a 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -57,8 +57,8 @@ public:
         parallel::init();
         progress::init();
         objloader::init();
-        reset();
 		initialized_ = true;
+        reset();
     }
 
     void shutdown() {
@@ -93,20 +93,24 @@ public:
     }
 
     AssetGroup* assets() {
+        check_initialized();
         return root_assets_.get();
     }
 
     void reset() {
+        check_initialized();
         // Initialize asset
         root_assets_ = comp::create<AssetGroup>("asset_group::default", make_loc("assets"));
     }
 
     void save_state_to_file(const std::string& path) {
+        check_initialized();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
     }
 
     void load_state_from_file(const std::string& path) {
+        check_initialized();
         std::ifstream is(path, std::ios::in | std::ios::binary);
         // This might cause an exception. In this case keep the existing assets.
         const auto loc = root_assets_->loc();
-- 
2.43.0


From 1c3948687ee1d7d1fd1ca132298ded5c7033d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:33 +0000
Subject: [PATCH 17/51] fix: progress::delay crashed when its underlying
 progress context was missing or unknown

---
 src/progress.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/progress.cpp b/src/progress.cpp
index dc9beff..caa6406 100644
--- a/src/progress.cpp
+++ b/src/progress.cpp
@@ -63,8 +63,15 @@ private:
 public:
     virtual void construct(const Json& prop) override {
         delay_ = milliseconds(json::value<int>(prop, "delay"));
-        auto it = prop["progress"].begin();
+        const auto entry = json::value<Json>(prop, "progress");
+        auto it = entry.begin();
+        if (!entry.is_object() || it == entry.end()) {
+            LM_THROW_EXCEPTION_DEFAULT(Error::InvalidArgument);
+        }
         ctx_ = comp::create<ProgressContext>(it.key(), "", it.value());
+        if (!ctx_) {
+            LM_THROW_EXCEPTION_DEFAULT(Error::InvalidArgument);
+        }
     }
 
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
-- 
2.43.0


From a6d7c44d898c38e0511fe21f0f8eed7798156ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:51 +0000
Subject: [PATCH 18/51] fix: parse_positional_args read past the argument list
 when arguments were missing

---
 include/lm/json.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/lm/json.h b/include/lm/json.h
index 4e84ed0..2d66c1a 100644
--- a/include/lm/json.h
+++ b/include/lm/json.h
@@ -176,7 +176,12 @@ LM_INLINE Json merge(const Json& j1, const Json& j2) {
 */
 template <size_t N>
 Json parse_positional_args(int argc, char** argv, const std::string& temp) {
-    return Json::parse(detail::format_with_string_vector<N>(temp, { argv + 1, argv + argc }));
+    const std::vector<std::string> args(argv + std::min(argc, 1), argv + argc);
+    if (args.size() < N) {
+        LM_THROW_EXCEPTION(Error::InvalidArgument,
+            "Missing positional arguments [expected={}, actual={}]", N, args.size());
+    }
+    return Json::parse(detail::format_with_string_vector<N>(temp, args));
 }
 
 /*!
-- 
2.43.0


From febb7c6a61ed27cea93f6edbdefaa915f2ae24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 19/51] fix: locators with a trailing dot do not designate a
 component

---
 src/component.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/component.cpp b/src/component.cpp
index ceb7235..918e28f 100644
--- a/src/component.cpp
+++ b/src/component.cpp
@@ -339,10 +339,11 @@ public:
         }
 
         // Given 'xxx.yyy.zzz', returns the pair of 'xxx' and 'yyy.zzz'.
-        const auto splitFirst = [&](const std::string& s) -> std::tuple<std::string, std::string> {
+        // The second element is nullopt if there's no remaining path element.
+        const auto splitFirst = [&](const std::string& s) -> std::tuple<std::string, std::optional<std::string>> {
             const auto i = s.find_first_of('.', 0);
             if (i == std::string::npos) {
-                return { s, "" };
+                return { s, std::nullopt };
             }
             return { s.substr(0, i), s.substr(i + 1) };
         };
@@ -355,8 +356,8 @@ public:
         }
         auto remaining = r0;
         auto* curr = root_;
-        while (curr && !remaining.empty()) {
-            const auto [s, r] = splitFirst(remaining);
+        while (curr && remaining) {
+            const auto [s, r] = splitFirst(*remaining);
             curr = curr->underlying(s);
             remaining = r;
         }
-- 
2.43.0


From 81cc5c4ac9ac2898ae62bdf1558be97b2688a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 20/51] fix: underlying assets of an OBJ model have valid and
 unique names

---
 src/model/model_wavefrontobj.cpp | 55 ++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index c787fec..6ca4aca 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -72,13 +72,29 @@ public:
         return it != assets_map_.end() ? assets_[it->second].get() : nullptr;
     }
 
+private:
+    // Make a name of an underlying asset from a name in the file.
+    // The name must be a valid path element of a locator and unique inside the model.
+    std::string make_asset_name(std::string name) const {
+        std::replace(name.begin(), name.end(), '.', '_');
+        while (assets_map_.find(name) != assets_map_.end()) {
+            name += "_";
+        }
+        return name;
+    }
+
+public:
 	virtual void construct(const Json& prop) override {
+        // Asset indices of the materials and textures found in the file
+        std::unordered_map<std::string, int> material_map;
+        std::unordered_map<std::string, int> texture_map;
+
         const std::string path = json::value<std::string>(prop, "path");
         const bool result = objloader::load(path, geo_,
             // Process mesh
             [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
                 // Create mesh
-                const std::string mesh_name = fmt::format("mesh_{}", assets_.size());
+                const std::string mesh_name = make_asset_name(fmt::format("mesh_{}", assets_.size()));
                 auto mesh = comp::create<Mesh>(
                     "mesh::wavefrontobj_ref", make_loc(mesh_name),
                     json::merge(prop, {
@@ -96,7 +112,7 @@ public:
                 int light_index = -1;
                 if (glm::compMax(m.Ke) > 0_f) {
                     const auto light_impl_name = json::value<std::string>(prop, "light", "light::area");
-                    const auto light_name = mesh_name + "_light";
+                    const auto light_name = make_asset_name(mesh_name + "_light");
                     auto light = comp::create<Light>(light_impl_name, make_loc(light_name), {
                         {"Ke", m.Ke},
                         {"mesh", make_loc(mesh_name)}
@@ -110,7 +126,7 @@ public:
                 }
 
                 // Create mesh group
-                groups_.push_back({ assets_map_[mesh_name], assets_map_[m.name], light_index });
+                groups_.push_back({ assets_map_[mesh_name], material_map.at(m.name), light_index });
 
                 return true;
             },
@@ -119,13 +135,15 @@ public:
             [&](const MTLMatParams& m) -> bool {
                 // Load user-specified material if given
                 if (const auto it = prop.find("base_material"); it != prop.end()) {
-                    auto mat = comp::create<Material>("material::proxy", make_loc(m.name), {
+                    const auto material_name = make_asset_name(m.name);
+                    auto mat = comp::create<Material>("material::proxy", make_loc(material_name), {
                         {"ref", *it}
                     });
                     if (!mat) {
                         return false;
                     }
-                    assets_map_[m.name] = int(assets_.size());
+                    assets_map_[material_name] = int(assets_.size());
+                    material_map[m.name] = int(assets_.size());
                     assets_.push_back(std::move(mat));
                     return true;
                 }
@@ -133,12 +151,12 @@ public:
                 // Load texture
                 std::string mapKd_loc;
                 if (!m.mapKd.empty()) {
-                    // Use texture_<filename> as an identifier
-                    const auto id = "texture_" + fs::path(m.mapKd).stem().string();
-
                     // Check if already loaded
-                    if (auto it = assets_map_.find(id); it == assets_map_.end()) {
+                    auto it = texture_map.find(m.mapKd);
+                    if (it == texture_map.end()) {
                         // If not loaded, load the texture
+                        // Use texture_<filename> as an identifier
+                        const auto id = make_asset_name("texture_" + fs::path(m.mapKd).stem().string());
                         const auto textureAssetName = json::value<std::string>(prop, "texture", "texture::bitmap");
                         auto texture = comp::create<Texture>(textureAssetName, make_loc(id), {
                             {"path", (fs::path(path).remove_filename()/m.mapKd).string()}
@@ -147,31 +165,33 @@ public:
                             return false;
                         }
                         assets_map_[id] = int(assets_.size());
+                        it = texture_map.emplace(m.mapKd, int(assets_.size())).first;
                         assets_.push_back(std::move(texture));
                     }
 
                     // Locator of the texture
-                    mapKd_loc = make_loc(id);
+                    mapKd_loc = assets_[it->second]->loc();
                 }
 
                 // Load material
                 Ptr<Material> mat;
+                const auto material_name = make_asset_name(m.name);
                 const bool skip_specular_mat = json::value<bool>(prop, "skip_specular_mat", false);
                 if (m.illum == 5 || m.illum == 7) {
                     if (skip_specular_mat) {
                         // Skip specular material. Use black material.
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), { {"Kd", Vec3(0_f)} });
+                            "material::diffuse", make_loc(material_name), { {"Kd", Vec3(0_f)} });
                     }
                     else if (m.illum == 7) {
                         // Glass
                         mat = comp::create<Material>(
-                            "material::glass", make_loc(m.name), { {"Ni", m.Ni} });
+                            "material::glass", make_loc(material_name), { {"Ni", m.Ni} });
                     }
                     else if (m.illum == 5) {
                         // Mirror
                         mat = comp::create<Material>(
-                            "material::mirror", make_loc(m.name), {});
+                            "material::mirror", make_loc(material_name), {});
                     }
                 }
                 else {
@@ -180,7 +200,7 @@ public:
                     if (math::is_zero(m.Ks)) {
                         // Diffuse material
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), {
+                            "material::diffuse", make_loc(material_name), {
                                 {"Kd", m.Kd},
                                 {"mapKd", mapKd_loc}
                             });
@@ -190,7 +210,7 @@ public:
                         const auto r = 2_f / (2_f + m.Ns);
                         const auto as = math::safe_sqrt(1_f - m.an * .9_f);
                         mat = comp::create<Material>(
-                            "material::glossy", make_loc(m.name), {
+                            "material::glossy", make_loc(material_name), {
                                 {"Ks", m.Ks},
                                 {"ax", std::max(1e-3_f, r / as)},
                                 {"ay", std::max(1e-3_f, r * as)}
@@ -205,7 +225,7 @@ public:
                     // Default mixture material of D and G
                     mat = comp::create<Material>(
                         "material::mixture_wavefrontobj",
-                        make_loc(m.name),
+                        make_loc(material_name),
                         {
                             {"Kd", m.Kd},
                             {"mapKd", mapKd_loc},
@@ -219,7 +239,8 @@ public:
                 if (!mat) {
                     return false;
                 }
-                assets_map_[m.name] = int(assets_.size());
+                assets_map_[material_name] = int(assets_.size());
+                material_map[m.name] = int(assets_.size());
                 assets_.push_back(std::move(mat));
 
                 return true;
-- 
2.43.0


From a15a5a75a4594f0ec8c1965c1434c4a71f0dd78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 21/51] fix: saving the state reports an incomplete write

---
 src/user.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/user.cpp b/src/user.cpp
index 21b155a..fbb8d2b 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -107,6 +107,11 @@ public:
         check_initialized();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
+        // Flush the buffer to check if the whole contents could be written
+        os.close();
+        if (!os) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to write state [path='{}']", path);
+        }
     }
 
     void load_state_from_file(const std::string& path) {
-- 
2.43.0


From ff592899528ec70ec5e0a09cbe10a157424566f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 22/51] fix: loading a serialized asset rejects invalid names

---
 src/assetgroup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 9d8be08..1a263bd 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -143,6 +143,11 @@ public:
         LM_INFO("Loading serialized asset [name='{}']", name);
         LM_INDENT();
 
+        if (!valid_asset_name(name)) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument,
+                "Invalid asset name [name='{}']", name);
+        }
+
         if (asset_index_map_.find(name) != asset_index_map_.end()) {
             LM_THROW_EXCEPTION(Error::InvalidArgument,
                 "Asset [name='{}'] has been already loaded.", name);
-- 
2.43.0


From ed992ea4b0106ba4915b717380de69893bbdd36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 23/51] fix: Bound::isect_range returns no NaN range for rays
 on a face of the bound

---
 include/lm/math.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lm/math.h b/include/lm/math.h
index 3b23371..878f5bb 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -148,8 +148,10 @@ struct Bound {
             if (vd < 0) {
                 std::swap(t1, t2);
             }
-            tmin = glm::max(t1, tmin);
-            tmax = glm::min(t2, tmax);
+            // t1 or t2 can be NaN if the ray lies on the face of the bound.
+            // The order of the arguments matters: in this case keep the current range.
+            tmin = glm::max(tmin, t1);
+            tmax = glm::min(tmax, t2);
             if (tmax < tmin) {
                 return false;
             }
-- 
2.43.0


From 32b19b1ede86c7ea599961517752856aec9e6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 24/51] fix: discrete distributions handle zero rows, zero bins
 and the end of the domain

---
 include/lm/math.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/lm/math.h b/include/lm/math.h
index 878f5bb..d3b7885 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -347,6 +347,10 @@ struct Dist {
     */
     void norm() {
         const auto sum = c.back();
+        if (sum <= 0_f) {
+            // All values are zeros
+            return;
+        }
         for (auto& v : c) {
             v /= sum;
         }
@@ -367,7 +371,11 @@ struct Dist {
         \return Sampled index.
     */
     int sample(Float u) const {
-        const auto it = std::upper_bound(c.begin(), c.end(), u);
+        auto it = std::upper_bound(c.begin(), c.end(), u);
+        if (it == c.end()) {
+            // u = 1. Select the last bin with non-zero probability.
+            it = std::lower_bound(c.begin(), c.end(), c.back());
+        }
         return std::clamp(int(std::distance(c.begin(), it)) - 1, 0, int(c.size()) - 2);
     }
 };
@@ -398,6 +406,7 @@ struct Dist2 {
     void init(const std::vector<Float>& v, int cols, int rows) {
         w = cols;
         h = rows;
+        m.clear();
         ds.assign(h, {});
         for (int i = 0; i < h; i++) {
             auto& d = ds[i];
@@ -418,7 +427,8 @@ struct Dist2 {
     */
     Float pdf(Float u, Float v) const {
         const int y = std::min(int(v * h), h - 1);
-        return m.pmf(y) * ds[y].pmf(int(u * w)) * w * h;
+        const int x = std::min(int(u * w), w - 1);
+        return m.pmf(y) * ds[y].pmf(x) * w * h;
     }
 
     /*!
-- 
2.43.0


From 686443abeaa0be4100b5dd3f62fdb2e57fd8b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:57 +0000
Subject: [PATCH 25/51] fix: bitmap textures with one or two components are
 evaluated as grayscale

---
 src/texture/texture_bitmap.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index a10d9f9..012097f 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -65,18 +65,27 @@ public:
         stbi_image_free(data);
     }
 
+private:
+    // Color of i-th texel. Images with one or two components are grayscale.
+    Vec3 color_at(int i) const {
+        return c_ < 3
+            ? Vec3(data_[c_*i])
+            : Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+    }
+
+public:
     virtual Vec3 eval(Vec2 t) const override {
         const auto u = t.x - floor(t.x);
         const auto v = t.y - floor(t.y);
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Vec3 eval_by_pixel_coords(int x, int y) const override {
         const int i = w_*y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Float eval_alpha(Vec2 t) const override {
@@ -85,11 +94,11 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return data_[c_*i+3];
+        return data_[c_*i+c_-1];
     }
 
     virtual bool has_alpha() const override {
-        return c_ == 4;
+        return c_ == 2 || c_ == 4;
     }
 
     virtual TextureBuffer buffer() override {
-- 
2.43.0


From 12a97290ce2eaf1d3e9b4defee58bfb22530c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 26/51] fix: saving a film reports an incomplete file and a
 directory that cannot be created

---
 src/film/film_bitmap.cpp | 45 +++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index cf3a60a..c4302cc 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -58,11 +58,11 @@ struct AtomicWrapper {
 
 // Helper functions on image manipulaion
 namespace image {
-    // Write image as .pfm file
-    bool writePfm(const std::string& outpath, int w, int h, const std::vector<float>& d) {
+    // Write a buffer to the file. Returns false if the whole contents could not be written.
+    bool writeFile(const std::string& outpath, const std::string& buf) {
         FILE *f;
-        int err;
         #if LM_COMPILER_MSVC
+        int err;
         if ((err = fopen_s(&f, outpath.c_str(), "wb")) != 0) {
             LM_ERROR("Failed to open [file='{}',errorno='{}']", outpath, err);
             return false;
@@ -73,12 +73,27 @@ namespace image {
             return false;
         }
         #endif
-        fprintf(f, "PF\n%d %d\n-1\n", w, h);
-        fwrite(d.data(), 4, d.size(), f);
-        fclose(f);
+        const bool written = fwrite(buf.data(), 1, buf.size(), f) == buf.size();
+        const bool closed = fclose(f) == 0;
+        if (!written || !closed) {
+            LM_ERROR("Failed to write [file='{}']", outpath);
+            return false;
+        }
         return true;
     }
 
+    // Callback function for stb_image_write
+    void appendToBuffer(void* context, void* data, int size) {
+        static_cast<std::string*>(context)->append(static_cast<const char*>(data), size);
+    }
+
+    // Write image as .pfm file
+    bool writePfm(const std::string& outpath, int w, int h, const std::vector<float>& d) {
+        auto buf = fmt::format("PF\n{} {}\n-1\n", w, h);
+        buf.append(reinterpret_cast<const char*>(d.data()), 4 * d.size());
+        return writeFile(outpath, buf);
+    }
+
     // Sanity check of an image. If the image contains invalid values like INF or NAN,
     // this function returns false.
     bool sanityCheck(int w, int h, const std::vector<float>& d) {
@@ -162,9 +177,11 @@ public:
 
         // Create directory if not found
         const auto parent = fs::path(outpath).parent_path();
-        if (!parent.empty() && !fs::exists(parent)) {
+        std::error_code ec;
+        if (!parent.empty() && !fs::exists(parent, ec)) {
             LM_INFO("Creating directory [path='{}']", parent.string());
-            if (!fs::create_directories(parent)) {
+            fs::create_directories(parent, ec);
+            if (ec) {
                 LM_INFO("Failed to create directory [path='{}']", parent.string());
                 return false;
             }
@@ -175,7 +192,11 @@ public:
         const auto ext = fs::path(outpath).extension().string();
         if (ext == ".png") {
             const auto data = copy<unsigned char>(true);
-            if (!stbi_write_png(outpath.c_str(), w_, h_, 3, data.data(), w_*3)) {
+            std::string buf;
+            if (!stbi_write_png_to_func(image::appendToBuffer, &buf, w_, h_, 3, data.data(), w_*3)) {
+                return false;
+            }
+            if (!image::writeFile(outpath, buf)) {
                 return false;
             }
         }
@@ -190,7 +211,11 @@ public:
         else if (ext == ".hdr") {
             auto data = copy<float>(true);
             image::sanityCheck(w_, h_, data);
-            if (!stbi_write_hdr(outpath.c_str(), w_, h_, 3, data.data())) {
+            std::string buf;
+            if (!stbi_write_hdr_to_func(image::appendToBuffer, &buf, w_, h_, 3, data.data())) {
+                return false;
+            }
+            if (!image::writeFile(outpath, buf)) {
                 return false;
             }
         }
-- 
2.43.0


From 863908356beb58b7d0559e3fb7420e6b515222ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:11 +0000
Subject: [PATCH 27/51] fix: PNG output clamps values before the conversion to
 integer

---
 src/film/film_bitmap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index c4302cc..83ba5d5 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -289,8 +289,10 @@ private:
                         v[3*(yy*w_+x)+i] = T(t);
                     }
                     if constexpr (std::is_same_v<T, unsigned char>) {
-                        const auto t2 = std::pow(t, 1_f/2.2_f);
-                        v[3*(yy*w_+x)+i] = (unsigned char)glm::clamp(int(256_f*t2), 0, 255);
+                        // Clamp before the conversion to int which overflows for large values.
+                        // Negative value or NaN is converted to zero.
+                        const auto t2 = t > 0_f ? std::pow(t, 1_f/2.2_f) : 0_f;
+                        v[3*(yy*w_+x)+i] = (unsigned char)glm::min(256_f*t2, 255_f);
                     }
                 }
             }
-- 
2.43.0


From e4ca140e0dd1b772c461e6cc2c61bff1150416d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:54 +0000
Subject: [PATCH 28/51] fix: objloader::simple rejects faces that refer to
 missing vertices and handles long lines, names and polygons

---
 src/objloader/objloader_simple.cpp | 85 ++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index b643b22..56c59f1 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -27,7 +27,7 @@ public:
         msmap_.clear();
 
         LM_INFO("Loading OBJ file [path='{}']", fs::path(path).filename().string());
-        char l[4096], name[256];
+        std::string l;
         std::ifstream f(path);
         if (!f) {
             LM_ERROR("Missing OBJ file [path='{}']", path);
@@ -48,8 +48,8 @@ public:
         int curr_material_index = 0;
 
         // Parse .obj file line by line
-        while (f.getline(l, 4096)) {
-            char *t = l;
+        while (std::getline(f, l)) {
+            char *t = l.data();
             skip_spaces(t);
 
             // ----- Parse vertex position
@@ -91,24 +91,29 @@ public:
                 auto& primitive = primitives.back();
 
                 // Parse face indices
-                OBJMeshFaceIndex is[4];
-                for (auto& i : is) {
-                    if (eol(t[0])) {
-                        continue;
+                std::vector<OBJMeshFaceIndex> is;
+                for (skip_spaces(t); !eol(t[0]) && t[0] != '\r' && t[0] != '#'; skip_spaces(t)) {
+                    is.push_back(parse_indices(geo, t));
+                    // Vertices of a face must have the same attributes
+                    if ((is.back().t == -1) != (is[0].t == -1) || (is.back().n == -1) != (is[0].n == -1)) {
+                        LM_ERROR("Inconsistent vertices of face [line='{}']", l);
+                        return false;
                     }
-                    i = parse_indices(geo, t);
                 }
-                primitive.fs.insert(primitive.fs.end(), {is[0], is[1], is[2]});
-                if (is[3].p != -1) {
-                    // Triangulate quad
-                    primitive.fs.insert(primitive.fs.end(), {is[0], is[2], is[3]});
+                if (is.size() < 3) {
+                    LM_ERROR("Insufficient number of vertices of face [line='{}']", l);
+                    return false;
+                }
+                // Triangulate polygon
+                for (size_t i = 2; i < is.size(); i++) {
+                    primitive.fs.insert(primitive.fs.end(), {is[0], is[i-1], is[i]});
                 }
             }
             
             // ----- Parse material
             else if (command(t, "usemtl", 6)) {
                 t += 7;
-                next_string(t, name);
+                const auto name = next_string(t);
 
                 // Create a new primitive
                 // If 'usemtl' is defined immediately after 'g' command, use the last primitive.
@@ -128,7 +133,7 @@ public:
             
             // ----- Parse material library
             else if (command(t, "mtllib", 6)) {
-                next_string(t += 7, name);
+                const auto name = next_string(t += 7);
                 if (!loadmtl((fs::path(path).remove_filename() / name).string())) {
                     return false;
                 }
@@ -140,6 +145,23 @@ public:
             }
         }
 
+        if (f.bad()) {
+            LM_ERROR("Failed to read OBJ file [path='{}']", path);
+            return false;
+        }
+
+        // Check if the faces refer to existing vertices
+        for (const auto& primitive : primitives) {
+            for (const auto& i : primitive.fs) {
+                if (i.p < 0  || i.p >= int(geo.ps.size()) ||
+                    i.t < -1 || i.t >= int(geo.ts.size()) ||
+                    i.n < -1 || i.n >= int(geo.ns.size())) {
+                    LM_ERROR("Face refers to missing vertex [path='{}']", path);
+                    return false;
+                }
+            }
+        }
+
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
             ms_.push_back({ "default", -1, Vec3(1) });
@@ -154,6 +176,10 @@ public:
 
         // Process parsed primitives
         for (const auto& primitive : primitives) {
+            // Skip primitive without faces, e.g., in consecutive 'g' or 'usemtl' commands
+            if (primitive.fs.empty()) {
+                continue;
+            }
             if (!process_mesh(primitive.fs, ms_.at(primitive.material_index))) {
                 return false;
             }
@@ -204,7 +230,8 @@ private:
     }
 
     // Parses vertex index. See specification of obj file for detail.
-    int parse_index(int i, int vn) { return i < 0 ? vn + i : i > 0 ? i - 1 : -1; }
+    // Returns -1 for missing index, -2 for relative index out of range.
+    int parse_index(int i, int vn) { return i < 0 ? (vn + i >= 0 ? vn + i : -2) : i > 0 ? i - 1 : -1; }
     OBJMeshFaceIndex parse_indices(OBJSurfaceGeometry& geo, char *&t) {
         OBJMeshFaceIndex i;
         skip_spaces(t);
@@ -220,13 +247,9 @@ private:
     }
 
     // Parses a string
-    template <int N>
-    void next_string(char *&t, char (&name)[N]) {
-        #if LM_COMPILER_MSVC
-        sscanf_s(t, "%s", name, N);
-        #else
-        sscanf(t, "%s", name);
-        #endif
+    std::string next_string(char *&t) {
+        skip_spaces(t);
+        return std::string(t, strcspn(t, " \t\r"));
     };
 
     // Parses .mtl file
@@ -237,12 +260,16 @@ private:
             LM_ERROR("Missing MLT file [path='{}']", p);
             return false;
         }
-        char l[4096], name[256];
-        while (f.getline(l, 4096)) {
-            auto *t = l;
+        std::string l;
+        while (std::getline(f, l)) {
+            auto *t = l.data();
             skip_spaces(t);
             if (command(t, "newmtl", 6)) {
-                next_string(t += 7, name);
+                const auto name = next_string(t += 7);
+                if (name.empty()) {
+                    LM_ERROR("Missing material name [path='{}']", p);
+                    return false;
+                }
                 msmap_[name] = int(ms_.size());
                 ms_.emplace_back();
                 ms_.back().name = name;
@@ -259,7 +286,11 @@ private:
             else if (command(t, "aniso", 5))  { m.an = next_float(t += 5); }
             else if (command(t, "Ke", 2))     { m.Ke = next_vec3(t += 3); }
             else if (command(t, "illum", 5))  { m.illum = next_int(t += 6); }
-            else if (command(t, "map_Kd", 6)) { next_string(t += 7, name); m.mapKd = name; }
+            else if (command(t, "map_Kd", 6)) { m.mapKd = next_string(t += 7); }
+        }
+        if (f.bad()) {
+            LM_ERROR("Failed to read MTL file [path='{}']", p);
+            return false;
         }
         return true;
     }
-- 
2.43.0


From 923aafb87b073d9de94124ccc925785ca5147020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:54 +0000
Subject: [PATCH 29/51] fix: objloader::tinyobjloader dropped the first face
 after a change of the material

---
 .../objloader_tinyobjloader.cpp               | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 9483371..13189c2 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -49,7 +49,7 @@ public:
         // Copy vertex data
         // This incurs temporal double allocation of the vertex buffers.
         geo.ps.assign(attrib.vertices.size() / 3, Vec3());
-        memcpy(&geo.ps[0].x, &attrib.vertices[0], sizeof(Float) * attrib.vertices.size());
+        memcpy(geo.ps.data(), attrib.vertices.data(), sizeof(Float) * attrib.vertices.size());
         attrib.vertices.clear();
         attrib.vertices.shrink_to_fit();
         if (!attrib.normals.empty()) {
@@ -91,7 +91,7 @@ public:
 
         // Default material if OBJ has no corresponding MTL file
         if (materials.empty()) {
-            MTLMatParams p;
+            MTLMatParams p{};
             p.name = "default";
             p.illum = -1;
             p.Kd = Vec3(1);
@@ -108,6 +108,9 @@ public:
             // because our framework doesn't support per-face material.
             fs.clear();
             const int num_faces = int(shape.mesh.num_face_vertices.size());
+            if (num_faces == 0) {
+                continue;
+            }
             int prev_material_id = shape.mesh.material_ids[0];
             for (int fi = 0; fi < num_faces; fi++) {
                 // Assume the mesh is triangulated
@@ -126,14 +129,12 @@ public:
                     fs.clear();
                     prev_material_id = curr_material_id;
                 }
-                else {
-                    const auto& i1 = shape.mesh.indices[fi*3];
-                    const auto& i2 = shape.mesh.indices[fi*3+1];
-                    const auto& i3 = shape.mesh.indices[fi*3+2];
-                    fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
-                    fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
-                    fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
-                }
+                const auto& i1 = shape.mesh.indices[fi*3];
+                const auto& i2 = shape.mesh.indices[fi*3+1];
+                const auto& i3 = shape.mesh.indices[fi*3+2];
+                fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
+                fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
+                fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
             }
             if (!fs.empty()) {
                 if (!process_mesh(fs, our_mat_params[prev_material_id < 0 ? 0 : prev_material_id])) {
-- 
2.43.0


From a93e17fc71de054c98c74fa8476f8ee2d87020e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:26 +0000
Subject: [PATCH 30/51] fix: C strings were stored in JSON values as their
 addresses

---
 include/lm/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/json.h b/include/lm/json.h
index 2d66c1a..981fc80 100644
--- a/include/lm/json.h
+++ b/include/lm/json.h
@@ -89,7 +89,7 @@ struct adl_serializer<glm::mat<C, R, T, Q>> {
 };
 
 template <typename T>
-struct adl_serializer<T, std::enable_if_t<std::is_pointer_v<T>, void>> {
+struct adl_serializer<T, std::enable_if_t<std::is_pointer_v<T> && !std::is_convertible_v<T, std::string>, void>> {
     template <typename BasicJsonType>
     static void to_json(BasicJsonType& j, T v) {
         std::stringstream ss;
-- 
2.43.0


From af020b572d25b2c78a69491869870268bccbec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:26 +0000
Subject: [PATCH 31/51] fix: alpha mask of material::mixture_wavefrontobj is
 weighted by its BSDF and PDF

---
 src/model/model_wavefrontobj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 6ca4aca..bc516ac 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -493,7 +493,7 @@ public:
             const auto C = f / p;
             return DirectionSample{
                 wo,
-                Vec3(1_f)
+                C
             };
         }
     }
-- 
2.43.0


From fe0cc0ca2c8e95957b4a0b3bb98cdbdb1e5b98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 32/51] fix: light::env weights a row of pixels by the solid
 angle of the row

---
 src/light/light_env.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index 135cd57..35dce88 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -67,7 +67,7 @@ public:
             const int x = i % w;
             const int y = i / w;
             const auto v = envmap_->eval_by_pixel_coords(x, y) * scale_;
-            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(i) / w + .5_f) / h);
+            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(y) + .5_f) / h);
         }
         dist_.init(ls, w, h);
     }
-- 
2.43.0


From 363ec5c35d2dd3332efefe7a9c2f6610a95154e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 33/51] fix: light::directional has zero density for rays
 evaluated with the delta function

---
 src/light/light_directional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_directional.cpp b/src/light/light_directional.cpp
index c8948de..4ee8112 100644
--- a/src/light/light_directional.cpp
+++ b/src/light/light_directional.cpp
@@ -69,7 +69,7 @@ public:
 
     virtual Float pdf_ray(const PointGeometry&, Vec3, const Transform&, bool eval_delta) const override {
         const auto pA = 1_f / (Pi * sphere_bound_.radius * sphere_bound_.radius);
-        return eval_delta ? 1_f : pA;
+        return eval_delta ? 0_f : pA;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 6dcc549fc876d23660fe27760513f6442d110e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 34/51] fix: weight of the positions sampled on lights includes
 the selection probability

---
 include/lm/path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index 1a1ddaf..bdec906 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -293,7 +293,7 @@ static std::optional<PositionSample> sample_position(const PositionSampleU& u, c
                 light_primitive_index.index,
                 s->geom
             ),
-            s->weight
+            s->weight / p_sel
         };
     }
     LM_UNREACHABLE_RETURN();
-- 
2.43.0


From cc61740f8cc6e8d223ca114efacc5d628999c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 35/51] fix: camera::pinhole given by a matrix has its center
 and up vector

---
 src/camera/camera_pinhole.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 3a00e78..31d2443 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -82,6 +82,8 @@ public:
             u_ = -viewM3[0];
             v_ = viewM3[1];
             w_ = -viewM3[2];
+            center_ = position_ - w_;
+            up_ = v_;
         }
         else {
             position_ = json::value<Vec3>(prop, "position"); // Camera position
-- 
2.43.0


From 021a0251f1b83e0400a53cb82cc6da08d9e876ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 36/51] fix: camera::pinhole does not connect to points outside
 of the view frustum

---
 src/camera/camera_pinhole.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 31d2443..d67d345 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -184,7 +184,11 @@ public:
         }
         const auto geomE = PointGeometry::make_degenerated(position_);
         const auto wo = glm::normalize(geom.p - position_);
-        const auto We = Vec3(J(wo));
+        if (!raster_position(wo)) {
+            // The point is not in the view frustum
+            return {};
+        }
+        const auto We = eval(wo);
         const auto p = pdf_direct(geom, geomE, wo);
         if (p == 0_f) {
             return {};
-- 
2.43.0


From e7103a72d9b513ff0913e2868e4302d905cdd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:53 +0000
Subject: [PATCH 37/51] fix: density of transformed area lights accounts for
 the change of the area

---
 src/light/light_area.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index c2803f9..1d5fd6a 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -37,11 +37,12 @@ public:
     }
 
 private:
-    Float tranformed_invA(const Transform& transform) const {
-        // TODO: Handle degenerated axis
-        // e.g., scaling by (.2,.2,.2) leads J=1/5^3
-        // but the actual change of areae is J=1/5^2
-        return invA_ / transform.J;
+    // Inverse area of the transformed light around the given point on the light
+    Float tranformed_invA(const PointGeometry& geom, const Transform& transform) const {
+        // The area of the surface with unit (transformed) normal n
+        // changes according to J / |M_lin^T n| where J = |det(M_lin)|
+        const auto n_local = glm::transpose(Mat3(transform.M)) * geom.gn;
+        return invA_ * glm::length(n_local) / transform.J;
     }
 
     PointGeometry sample_position_on_triangle_mesh(Vec2 up, Float upc, const Transform& transform) const {
@@ -78,7 +79,7 @@ public:
     virtual std::optional<RaySample> sample_ray(const RaySampleU& us, const Transform& transform) const override {
         // Sample position
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(geomL, transform);
         
         // Sample direction
         const auto wo_local = math::sample_cosine_weighted(us.ud);
@@ -132,15 +133,15 @@ public:
 
     virtual std::optional<PositionSample> sample_position(const PositionSampleU& us, const Transform& transform) const override {
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(geomL, transform);
         return PositionSample{
             geomL,
             Vec3(1_f / pA)
         };
     }
 
-    virtual Float pdf_position(const PointGeometry&, const Transform& transform) const override {
-        return tranformed_invA(transform);
+    virtual Float pdf_position(const PointGeometry& geom, const Transform& transform) const override {
+        return tranformed_invA(geom, transform);
     }
 
     // --------------------------------------------------------------------------------------------
@@ -165,7 +166,7 @@ public:
             return 0_f;
         }
         const auto G = surface::geometry_term(geom, geomL);
-        return G == 0_f ? 0_f : tranformed_invA(transform) / G;
+        return G == 0_f ? 0_f : tranformed_invA(geomL, transform) / G;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 3c5470182ce336b85e1bf60e265b1f7aec0c6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 38/51] fix: volume::multi reports invalid references instead
 of dereferencing a null pointer

---
 src/volume/volume_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 93fd841..834d58f 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -57,6 +57,8 @@ public:
             volumes_alb_.push_back( comp::get<Volume>(vol_ref_alb[i]) );
             volumes_den_.push_back( comp::get<Volume>(vol_ref_den[i]) );
 
+            if (!volumes_alb_.back() || !volumes_den_.back())
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid reference to volumes_alb[{0}] or volumes_den[{0}]", i);
             if (!volumes_alb_.back()->has_color())
                 LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] has no albedo/color", i);
             if (!volumes_den_.back()->has_scalar())
-- 
2.43.0


From a3e46d6f5d86ba1e043f5717f2253f59939832ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 39/51] fix: bound of volume::gaussian is proportional to the
 standard deviation

---
 src/volume/volume_gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_gaussian.cpp b/src/volume/volume_gaussian.cpp
index 1fc4cee..9789f3a 100644
--- a/src/volume/volume_gaussian.cpp
+++ b/src/volume/volume_gaussian.cpp
@@ -51,7 +51,7 @@ public:
     Bound computeBound(const Vec3 &sigma) const {
         auto compAC = [&](Float s) -> Float {
             //the first 2._f is empirical: when scalar is large, Eps is not enough
-            return 2._f*sqrt(-2._f*s*std::log(Eps)); };
+            return 2._f*s*sqrt(-2._f*std::log(Eps)); };
         Float ac = std::max(std::max(compAC(sigma.x), compAC(sigma.y)), compAC(sigma.z));
         Bound b;
         b.max = pos_ + ac;
-- 
2.43.0


From cfb4d09178c17103577df47552222008d9a849ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:40 +0000
Subject: [PATCH 40/51] fix: distance sampling in a scene without media returns
 the next surface

---
 include/lm/path.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index bdec906..40bbe93 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -612,14 +612,23 @@ static std::optional<DistanceSample> sample_distance(Rng& rng, const Scene* scen
     const auto hit = scene->intersect({ sp.geom.p, wo }, Eps, Inf);
     const auto dist = hit && !hit->geom.infinite ? glm::length(hit->geom.p - sp.geom.p) : Inf;
 
+    // No medium in the scene. The next interaction is always on the surface.
+    const int medium_index = scene->medium_node();
+    if (medium_index == -1) {
+        if (!hit) {
+            return {};
+        }
+        return DistanceSample{ *hit, Vec3(1_f) };
+    }
+
     // Sample a distance
-    const auto* medium = scene->node_at(scene->medium_node()).primitive.medium;
+    const auto* medium = scene->node_at(medium_index).primitive.medium;
     const auto ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
     if (ds && ds->medium) {
         // Medium interaction
         return DistanceSample{
             SceneInteraction::make_medium_interaction(
-                scene->medium_node(),
+                medium_index,
                 PointGeometry::make_degenerated(ds->p)
             ),
             ds->weight
-- 
2.43.0


From cc19b04e353a27c9cbdf4ad12a5bdb7cedc49212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:24 +0000
Subject: [PATCH 41/51] fix: check length and strides of arrays converted to
 vectors and matrices

---
 include/lm/pylm.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 4bb2470..2515b08 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -190,12 +190,14 @@ struct type_caster<glm::vec<N, T, Q>> {
         }
 
         // Check dimension
-        if (buf.ndim() != 1) {
+        if (buf.ndim() != 1 || buf.shape(0) != N) {
             return false;
         }
 
-        // Copy values
-        memcpy(&value.data, buf.data(), N * sizeof(T));
+        // Copy values. Note that the array is not always contiguous.
+        for (int i = 0; i < N; i++) {
+            value[i] = *static_cast<const T*>(buf.data(i));
+        }
 
         return true;
     }
@@ -248,16 +250,17 @@ struct type_caster<glm::mat<C, R, T, Q>> {
         }
 
         // Check dimension
-        if (buf.ndim() != 2) {
+        if (buf.ndim() != 2 || buf.shape(0) != R || buf.shape(1) != C) {
             return false;
         }
 
-        // Copy values
-        memcpy(&value[0].data, buf.data(), C * R * sizeof(T));
-
-        // Transpose the copied values because
+        // Copy values. Note that the array is not always contiguous.
         // glm is column major on the other hand numpy is row major.
-        value = glm::transpose(value);
+        for (int i = 0; i < R; i++) {
+            for (int j = 0; j < C; j++) {
+                value[j][i] = *static_cast<const T*>(buf.data(i, j));
+            }
+        }
 
         return true;
     }
-- 
2.43.0


From b3dfd74c4d9ddf23c8e36c1558b8492dfca992b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:24 +0000
Subject: [PATCH 42/51] fix: convert JSON integers from and to Python without
 truncation to 32 bits

---
 include/lm/pylm.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 2515b08..3fc699f 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -40,7 +40,18 @@ public:
             value = src.cast<double>();
         }
         else if (isinstance<int_>(src)) {
-            value = src.cast<int>();
+            make_caster<std::int64_t> iconv;
+            make_caster<std::uint64_t> uconv;
+            if (iconv.load(src, convert)) {
+                value = cast_op<std::int64_t>(iconv);
+            }
+            else if (uconv.load(src, convert)) {
+                value = cast_op<std::uint64_t>(uconv);
+            }
+            else {
+                // Not representable
+                return false;
+            }
         }
         else if (isinstance<str>(src)) {
             value = src.cast<std::string>();
@@ -104,9 +115,11 @@ public:
             case value_t::number_float: {
                 return cast_to_python_object<double>(src, policy, std::move(parent));
             }
-            case value_t::number_integer: { [[fallthrough]]; }
+            case value_t::number_integer: {
+                return cast_to_python_object<std::int64_t>(src, policy, std::move(parent));
+            }
             case value_t::number_unsigned: {
-                return cast_to_python_object<int>(src, policy, std::move(parent));
+                return cast_to_python_object<std::uint64_t>(src, policy, std::move(parent));
             }
             case value_t::string: {
                 return cast_to_python_object<std::string>(src, policy, std::move(parent));
-- 
2.43.0


From 324802015d26cc8c568305ce661a4810af640b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:24 +0000
Subject: [PATCH 43/51] fix: convert only component instances to locators

---
 include/lm/pylm.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 3fc699f..1e70941 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -83,18 +83,12 @@ public:
         }
         else {
             // Extract underlying C++ type
-            // Check if the underlying type is registered to pybind,
-            // and the number of base class is one assuming multiple inheritance is not used.
-            auto& bases = all_type_info((PyTypeObject*)src.get_type().ptr());
-            if (bases.size() == 1) {
-                void* ptr = values_and_holders(reinterpret_cast<instance*>(src.ptr())).begin()->value_ptr();
-                auto* comp = static_cast<lm::Component*>(ptr);
+            // Only the instances of the component can be converted
+            if (isinstance<lm::Component>(src)) {
                 // Extranct the locator of the instance
-                value = comp->loc();
+                value = src.cast<lm::Component*>()->loc();
                 return true;
             }
-
-            LM_UNREACHABLE();
             return false;
         }
         return true;
-- 
2.43.0


From 35d98abbe3cfbe6663efcb0cc428cd079a8bb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:24 +0000
Subject: [PATCH 44/51] fix: dispatch Volume::max_scalar to the Python method
 of that name

---
 src/pylm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index bec63f4..a281996 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -973,7 +973,7 @@ static void bind_volume(pybind11::module& m) {
             PYBIND11_OVERLOAD_PURE(bool, Volume, has_scalar);
         }
         virtual Float max_scalar() const override {
-            PYBIND11_OVERLOAD_PURE(Float, Volume, has_scalar);
+            PYBIND11_OVERLOAD_PURE(Float, Volume, max_scalar);
         }
         virtual Float eval_scalar(Vec3 p) const override {
             PYBIND11_OVERLOAD(Float, Volume, eval_scalar, p);
-- 
2.43.0


From 79dee911a9dcd1bc9948aff35bbd6166ef703816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:24 +0000
Subject: [PATCH 45/51] fix: pass the random number generator to Python media
 by reference

---
 src/pylm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index a281996..2d56b47 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -939,10 +939,10 @@ static void bind_medium(pybind11::module& m) {
             PYBIND11_OVERLOAD(void, Medium, construct, prop);
         }
         virtual std::optional<DistanceSample> sample_distance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-            PYBIND11_OVERLOAD_PURE(std::optional<DistanceSample>, Medium, sample_distance, rng, ray, tmin, tmax);
+            PYBIND11_OVERLOAD_PURE(std::optional<DistanceSample>, Medium, sample_distance, &rng, ray, tmin, tmax);
         }
         virtual Vec3 eval_transmittance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-            PYBIND11_OVERLOAD_PURE(Vec3, Medium, eval_transmittance, rng, ray, tmin, tmax);
+            PYBIND11_OVERLOAD_PURE(Vec3, Medium, eval_transmittance, &rng, ray, tmin, tmax);
         }
         virtual bool is_emitter() const override {
             PYBIND11_OVERLOAD_PURE(bool, Medium, is_emitter);
-- 
2.43.0


From 2ff9aeb7c3a0bd9a34c74daf771d1816196f48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:25 +0000
Subject: [PATCH 46/51] fix: pass the scene to Python acceleration structures
 by reference

---
 src/pylm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index 2d56b47..57fed12 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -741,7 +741,7 @@ static void bind_accel(pybind11::module& m) {
             PYBIND11_OVERLOAD(void, Accel, construct, prop);
         }
         virtual void build(const Scene& scene) override {
-            PYBIND11_OVERLOAD_PURE(void, Accel, build, scene);
+            PYBIND11_OVERLOAD_PURE(void, Accel, build, &scene);
         }
         virtual std::optional<Hit> intersect(Ray ray, Float tmin, Float tmax) const override {
             PYBIND11_OVERLOAD_PURE(std::optional<Hit>, Accel, intersect, ray, tmin, tmax);
-- 
2.43.0


From c165ebc2fed21557dfc55e5063036b460e2f7d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:14 +0000
Subject: [PATCH 47/51] fix: raise the uninitialized error when the asset tree
 is printed without initialization

---
 src/debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cpp b/src/debug.cpp
index 43faa57..8cbfab3 100644
--- a/src/debug.cpp
+++ b/src/debug.cpp
@@ -6,6 +6,7 @@
 #include <pch.h>
 #include <lm/core.h>
 #include <lm/debug.h>
+#include <lm/user.h>
 #include <lm/parallel.h>
 #if LM_PLATFORM_WINDOWS
 #include <Windows.h>
@@ -112,9 +113,9 @@ LM_PUBLIC_API void print_asset_tree(bool visualize_weak_refs) {
         }
     };
         
+    auto* assets = lm::assets();
     LM_INFO("$.assets");
     LM_INDENT();
-    auto* assets = lm::comp::get<Component>("$.assets");
     assets->foreach_underlying(std::bind(visitor, _1, _2, "$.assets"));
 }
 
-- 
2.43.0


From 822a69e71ad5118db6ff13162bc149b836067255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 48/51] fix: save and load the state of assets implemented in
 Python

---
 src/pylm.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index 57fed12..af1d395 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -247,6 +247,7 @@ static void bind_user(pybind11::module& m) {
 // Bind assetgroup.h
 static void bind_asset_group(pybind11::module& m) {
     class AssetGroup_Py final : public AssetGroup {
+        PYLM_SERIALIZE_IMPL(AssetGroup);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, AssetGroup, construct, prop);
         }
@@ -582,6 +583,7 @@ static void bind_scenenode(pybind11::module& m) {
 // Bind scene.h
 static void bind_scene(pybind11::module& m) {
     class Scene_Py final : public Scene {
+        PYLM_SERIALIZE_IMPL(Scene);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Scene, construct, prop);
         }
@@ -737,6 +739,7 @@ static void bind_accel(pybind11::module& m) {
         .def_readwrite("face", &Accel::Hit::face);
 
     class Accel_Py final : public Accel {
+        PYLM_SERIALIZE_IMPL(Accel);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Accel, construct, prop);
         }
@@ -781,6 +784,7 @@ static void bind_texture(pybind11::module& m) {
         .def_readwrite("w", &TextureSize::w)
         .def_readwrite("h", &TextureSize::h);
     class Texture_Py final : public Texture {
+        PYLM_SERIALIZE_IMPL(Texture);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Texture, construct, prop);
         }
@@ -823,6 +827,7 @@ static void bind_mesh(pybind11::module& m) {
         .def_readwrite("p3", &Mesh::Tri::p3);
 
     class Mesh_Py final : public Mesh {
+        PYLM_SERIALIZE_IMPL(Mesh);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Mesh, construct, prop);
         }
@@ -858,6 +863,7 @@ static void bind_material(pybind11::module& m) {
         .def_readwrite("weight", &Material::DirectionSample::weight);
 
     class Material_Py final : public Material {
+        PYLM_SERIALIZE_IMPL(Material);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Material, construct, prop);
         }
@@ -903,6 +909,7 @@ static void bind_phase(pybind11::module& m) {
         .def_readwrite("weight", &Phase::DirectionSample::weight);
 
     class Phase_Py final : public Phase {
+        PYLM_SERIALIZE_IMPL(Phase);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Phase, construct, prop);
         }
@@ -935,6 +942,7 @@ static void bind_medium(pybind11::module& m) {
         .def_readwrite("medium", &Medium::DistanceSample::medium);
 
     class Medium_Py final : public Medium {
+        PYLM_SERIALIZE_IMPL(Medium);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Medium, construct, prop);
         }
@@ -963,6 +971,7 @@ static void bind_medium(pybind11::module& m) {
 // Bind volume.h
 static void bind_volume(pybind11::module& m) {
     class Volume_Py final : public Volume {
+        PYLM_SERIALIZE_IMPL(Volume);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Volume, construct, prop);
         }
@@ -1001,6 +1010,7 @@ static void bind_volume(pybind11::module& m) {
 // Bind model.h
 static void bind_model(pybind11::module& m) {
     class Model_Py final : public Model {
+        PYLM_SERIALIZE_IMPL(Model);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Model, construct, prop);
         }
@@ -1039,6 +1049,7 @@ static void bind_camera(pybind11::module& m) {
         .def_readonly("weight", &Camera::PositionSample::weight);
 
     class Camera_Py final : public Camera {
+        PYLM_SERIALIZE_IMPL(Camera);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Camera, construct, prop);
         }
@@ -1130,6 +1141,7 @@ static void bind_light(pybind11::module& m) {
         .def_readwrite("weight", &Light::RaySample::weight);
 
     class Light_Py final : public Light {
+        PYLM_SERIALIZE_IMPL(Light);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Light, construct, prop);
         }
-- 
2.43.0


From 8bf04674a527f86962b3e525a6004358d5a00a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:03 +0000
Subject: [PATCH 49/51] fix: tell the end of progress from a progress message
 in the log

Both levels had the same value, so the padding which hides a longer earlier
progress message was reset by every message and the end of progress did not
start a new line.
---
 include/lm/logger.h | 2 +-
 src/logger.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/logger.h b/include/lm/logger.h
index 85e544c..32ebc0f 100644
--- a/include/lm/logger.h
+++ b/include/lm/logger.h
@@ -84,7 +84,7 @@ enum class LogLevel : int {
         used in the end of the progress message.
         \endrst
     */
-    ProgressEnd = 100,
+    ProgressEnd = 101,
 };
 
 /*!
diff --git a/src/logger.cpp b/src/logger.cpp
index cba1e45..d8b6b0a 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -116,7 +116,7 @@ public:
             else {
                 std::cout << header;
             }
-            std::cout << body << whitespaces << "\r" << std::flush;
+            std::cout << body << whitespaces << (level == LogLevel::ProgressEnd ? "\n" : "\r") << std::flush;
 
             // ProgressEnd incurs newline so reset the cached values
             if (level == LogLevel::ProgressEnd) {
-- 
2.43.0


From d0210911a5a297fa5ea1db6542c0f43092851168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:03 +0000
Subject: [PATCH 50/51] fix: list registered components and use the framework's
 float type in the Python package

---
 lightmetrica/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightmetrica/__init__.py b/lightmetrica/__init__.py
index 2e9700d..689961f 100644
--- a/lightmetrica/__init__.py
+++ b/lightmetrica/__init__.py
@@ -22,7 +22,7 @@ def pylm_component(name):
 
 def array(*args, **kwargs):
     """Numpy array with default floating point type of lightmetrica"""
-    kwargs.setdefault('dtype', np.float32)
+    kwargs.setdefault('dtype', np.float32 if FloatT == FloatType.Float32 else np.float64)
     return np.array(*args, **kwargs)
 
 def registered_components():
@@ -30,5 +30,5 @@ def registered_components():
     comps = []
     def print_name(name):
         comps.append(name)
-    comp.foreachRegistered(print_name)
+    comp.foreach_registered(print_name)
     return comps
\ No newline at end of file
-- 
2.43.0


From c8b9c0355c0e924626c2506332fd17dabbdc7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:03 +0000
Subject: [PATCH 51/51] fix: read the film of the notebook film display through
 its locator

---
 lightmetrica_jupyter/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightmetrica_jupyter/__init__.py b/lightmetrica_jupyter/__init__.py
index bc868c9..07513bb 100644
--- a/lightmetrica_jupyter/__init__.py
+++ b/lightmetrica_jupyter/__init__.py
@@ -115,7 +115,7 @@ def load_ipython_extension(ip):
             self.fig.canvas.draw()
         def update(self, processed):
             self.ax.clear()
-            img = np.flip(lm.buffer(self.film), axis=0)
+            img = np.flip(np.copy(lm.get_film(self.film).buffer()), axis=0)
             self.ax.imshow(np.clip(np.power(img,1/2.2),0,1))
             self.fig.canvas.draw()
         def update_time(self, elapsed):
-- 
2.43.0

