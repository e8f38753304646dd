From ae5210239d3d71eea56de43c3aca5d195bc11a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 01/13] fix: base64 decoding indexes its table out of bounds
 for bytes above 127

---
 src/Omega_h_base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_base64.cpp b/src/Omega_h_base64.cpp
index 61d210d..a4c58df 100644
--- a/src/Omega_h_base64.cpp
+++ b/src/Omega_h_base64.cpp
@@ -71,7 +71,7 @@ unsigned char UC(T val) {
 void decode_4(char const* in, unsigned char* out, std::size_t nout = 3) {
   unsigned char val[4];
   for (unsigned i = 0; i < 4; ++i) {
-    val[i] = char_to_value[U(in[i])];
+    val[i] = char_to_value[UC(in[i])];
     OMEGA_H_CHECK(val[i] < 64);
   }
   /* cast it all !
-- 
2.43.0


From 9014c47bd88a775f67ad04ca1adc1db04b7e99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 02/13] fix: uniform draws starting at an odd counter repeated
 the previous counter's draw

---
 src/Omega_h_random_inline.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_random_inline.hpp b/src/Omega_h_random_inline.hpp
index cda09d3..9053c69 100644
--- a/src/Omega_h_random_inline.hpp
+++ b/src/Omega_h_random_inline.hpp
@@ -44,9 +44,10 @@ class UnitUniformDistribution {
     counter[1] = static_cast<std::uint64_t>(seed_in);
     key = static_cast<std::uint64_t>(key_in);
     counter[0] = static_cast<std::uint64_t>(counter_in);
-    if (counter[0] % 2)
+    if (counter[0] % 2) {
       even_step();
-    else
+      ++counter[0];  // even_step() rounds the counter down
+    } else
       state[1] = 0;  // Silences GCC 7.2.0 -Wmaybe-uninitialized about state[1]
                      // in operator()
   }
-- 
2.43.0


From a3761dce52b3e0f4d138aa4a0688da006cfd33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 03/13] fix: coalesce computes each offset from the preceding
 array

---
 src/Omega_h_array_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index b11356b..f13af03 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -450,7 +450,7 @@ Read<T> coalesce(std::vector<Read<T>> arrays) {
   OMEGA_H_CHECK(offsets.data() != nullptr);
   offsets[0] = 0;
   for (std::size_t i = 1; i <= arrays.size(); ++i) {
-    offsets[i] = offsets[i - 1] + arrays[i].size();
+    offsets[i] = offsets[i - 1] + arrays[i - 1].size();
   }
   auto out_size = offsets[arrays.size()];
   auto out = Write<T>(out_size);
-- 
2.43.0


From cf35eeafeb6904b0bc9bbef1194c6f4d78d413b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 04/13] fix: divide_each accepts empty arrays like
 multiply_each does

---
 src/Omega_h_array_ops.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index f13af03..6fb2e13 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -127,8 +127,12 @@ Read<T> multiply_each_by(Read<T> a, T b) {
 
 template <typename T>
 Write<T> divide_each(Read<T> a, Read<T> b, std::string const& name) {
-  auto width = divide_no_remainder(a.size(), b.size());
   Write<T> c(a.size(), name);
+  if (b.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), b.size());
   auto f = OMEGA_H_LAMBDA(LO i) {
     for (Int j = 0; j < width; ++j) {
       c[i * width + j] = a[i * width + j] / b[i];
-- 
2.43.0


From e1fd8658c9bc55d57af4ded938842643cdf5766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 05/13] fix: ternary_each accepts empty arrays

---
 src/Omega_h_array_ops.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index 6fb2e13..da51081 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -313,8 +313,12 @@ Read<T> max_each(Read<T> a, Read<T> b) {
 template <typename T>
 Read<T> ternary_each(Bytes cond, Read<T> a, Read<T> b) {
   OMEGA_H_CHECK(a.size() == b.size());
-  auto width = divide_no_remainder(a.size(), cond.size());
   Write<T> c(a.size());
+  if (cond.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), cond.size());
   auto f = OMEGA_H_LAMBDA(LO i) { c[i] = cond[i / width] ? a[i] : b[i]; };
   parallel_for(c.size(), f, "ternary_each");
   return c;
-- 
2.43.0


From 16961a038a55787d6be8d1d5c1686bfb99816899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 06/13] fix: keep the end of the tracked allocation list up to
 date

Alloc::init only updated Allocs::last for the first allocation, so the third
and later allocations were linked behind the first one and the ones in between
were lost from the list.
---
 src/Omega_h_shared_alloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_shared_alloc.cpp b/src/Omega_h_shared_alloc.cpp
index 6c3a0a9..e9e026c 100644
--- a/src/Omega_h_shared_alloc.cpp
+++ b/src/Omega_h_shared_alloc.cpp
@@ -98,8 +98,8 @@ void Alloc::init() {
       old_last->next = this;
     } else {
       ga->first = this;
-      ga->last = this;
     }
+    ga->last = this;
     ga->total_bytes += size;
     if (ga->total_bytes > ga->high_water_bytes) {
       Omega_h::ScopedTimer high_water_timer("high water update");
-- 
2.43.0


From e9abab54187db54570ef66cc6693543b54a162ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 07/13] fix: assigning a SharedAlloc to itself must not release
 it

The sole owner's storage was freed by clear() and then used by copy()/move().
---
 src/Omega_h_shared_alloc.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_shared_alloc.hpp b/src/Omega_h_shared_alloc.hpp
index 75d75e9..f47e0a9 100644
--- a/src/Omega_h_shared_alloc.hpp
+++ b/src/Omega_h_shared_alloc.hpp
@@ -105,13 +105,17 @@ struct SharedAlloc {
   }
   OMEGA_H_INLINE SharedAlloc(SharedAlloc&& other) { move(std::move(other)); }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc const& other) {
-    clear();
-    copy(other);
+    if (this != &other) {
+      clear();
+      copy(other);
+    }
     return *this;
   }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc&& other) {
-    clear();
-    move(std::move(other));
+    if (this != &other) {
+      clear();
+      move(std::move(other));
+    }
     return *this;
   }
   OMEGA_H_INLINE ~SharedAlloc() { clear(); }
-- 
2.43.0


From dd0576b97decdb313e80c91a95043acfbc81c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 08/13] fix: filter_graph_edges counted kept edges in 8 bits

A node that keeps more than 127 edges got a negative degree, so the offsets of
the filtered graph were wrong.
---
 src/Omega_h_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_graph.cpp b/src/Omega_h_graph.cpp
index 3f4261d..569886b 100644
--- a/src/Omega_h_graph.cpp
+++ b/src/Omega_h_graph.cpp
@@ -92,7 +92,7 @@ struct FilteredGraph {
 };
 
 Graph filter_graph_edges(Graph g, Read<I8> keep_edge) {
-  auto degrees = fan_reduce(g.a2ab, keep_edge, 1, OMEGA_H_SUM);
+  auto degrees = fan_reduce(g.a2ab, array_cast<LO>(keep_edge), 1, OMEGA_H_SUM);
   auto offsets = offset_scan(degrees);
   auto kept2old = collect_marked(keep_edge);
   auto edges = unmap(kept2old, g.ab2b, 1);
-- 
2.43.0


From 0b0a97b008794f419412ee14a85133abe4b7708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 09/13] fix: vertices keep their parents when a sub-mesh is
 extracted

---
 src/Omega_h_unmap_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_unmap_mesh.cpp b/src/Omega_h_unmap_mesh.cpp
index 990ef61..0d9c098 100644
--- a/src/Omega_h_unmap_mesh.cpp
+++ b/src/Omega_h_unmap_mesh.cpp
@@ -67,7 +67,7 @@ void unmap_owners(Mesh* old_mesh, Mesh* new_mesh, Int ent_dim,
 
 void unmap_parents(Mesh* old_mesh, Mesh* new_mesh,
     LOs new_ents2old_ents_a[], Few<LOs, 4> old_ents2new_ents) {
-  for (Int ent_dim = 1; ent_dim <= new_mesh->dim(); ++ent_dim) {
+  for (Int ent_dim = 0; ent_dim <= new_mesh->dim(); ++ent_dim) {
     auto new_ents2old_ents = new_ents2old_ents_a[ent_dim];
     auto nnew_ents = new_ents2old_ents.size();
     Write<LO> new_parent_idx(nnew_ents, -1, "parent idx");
-- 
2.43.0


From 55db03afa801070fcd6ed17a81c82c44de7661fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 10/13] fix: Mesh::set_parents drops the children lists of the
 previous parents

---
 src/Omega_h_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 100971d..d61a51b 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -97,6 +97,8 @@ void Mesh::set_ents(Int ent_dim, Adj down) {
 void Mesh::set_parents(Int ent_dim, Parents parents) {
   check_dim2(ent_dim);
   parents_[ent_dim] = std::make_shared<Parents>(parents);
+  // children lists derived from the previous parents are no longer valid
+  for (Int d = 0; d < DIMS; ++d) children_[d][ent_dim].reset();
 }
 
 CommPtr Mesh::comm() const { return comm_; }
-- 
2.43.0


From 02fd524d94d43b19359e4a5358500aa80ed17cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 11/13] fix: keep empty classification sets when reading a mesh

read_sets only created a set when it had a pair to put in it, so sets
without pairs disappeared when a mesh was written and read back.
---
 src/Omega_h_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 2febe4b..4d22d8d 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -351,11 +351,12 @@ static void read_sets(std::istream& stream, Mesh* mesh, bool needs_swapping) {
     read(stream, name, needs_swapping);
     I32 npairs;
     read_value(stream, npairs, needs_swapping);
+    auto& pairs = mesh->class_sets[name];
     for (I32 j = 0; j < npairs; ++j) {
       ClassPair pair;
       read_value(stream, pair.dim, needs_swapping);
       read_value(stream, pair.id, needs_swapping);
-      mesh->class_sets[name].push_back(pair);
+      pairs.push_back(pair);
     }
   }
 }
-- 
2.43.0


From b3c425fd062338bb85dfc720351f7ab6a7556368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:16 +0000
Subject: [PATCH 12/13] fix: asynchronous exchanges keep what they need of a
 temporary plan

---
 src/Omega_h_dist.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_dist.cpp b/src/Omega_h_dist.cpp
index 771d228..1a53ae8 100644
--- a/src/Omega_h_dist.cpp
+++ b/src/Omega_h_dist.cpp
@@ -132,9 +132,10 @@ Future<T> Dist::iexch(Read<T> data, Int width) const {
     data = permute(data, items2content_[F], width);
   }
   auto future = comm_[F]->ialltoallv(data, msgs2content_[F], msgs2content_[R], width);
-  auto callback = [this,width](Read<T> buf) {
-    if (this->items2content_[R].exists()) {
-      buf = unmap(this->items2content_[R], buf, width);
+  auto const ritems2content = items2content_[R];
+  auto callback = [ritems2content,width](Read<T> buf) {
+    if (ritems2content.exists()) {
+      buf = unmap(ritems2content, buf, width);
     }
     return buf;
   };
-- 
2.43.0


From bdb3741afb74c1116cbe1588e90bf8c3ab3ef996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:16 +0000
Subject: [PATCH 13/13] fix: Future::completed is true once all messages have
 arrived

---
 src/Omega_h_future.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_future.cpp b/src/Omega_h_future.cpp
index 32aa2a7..b967f1f 100644
--- a/src/Omega_h_future.cpp
+++ b/src/Omega_h_future.cpp
@@ -49,10 +49,10 @@ bool Future<T>::completed() {
   OMEGA_H_CHECK(
       MPI_SUCCESS == MPI_Testall(static_cast<int>(requests_.size()),
                          requests_.data(), &flag, MPI_STATUSES_IGNORE));
-  if (flag == 0) {
+  if (flag != 0) {
     status_ = Status::completed;
   }
-  return flag == 0;
+  return flag != 0;
 #else   // !OMEGA_H_USE_MPI
   return true;
 #endif  // OMEGA_H_USE_MPI
-- 
2.43.0

