From 54dda2baa1f80dd5e5581a5b2f3aa7f12b3c3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 01/44] fix: tree value() and children() throw out_of_range, as
 documented

Both threw std::bad_variant_access, so at() on an internal node did too, and
find(), which is documented not to fail, let that exception escape.
---
 src/core_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index ebe5288..109a2e0 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -301,6 +301,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const value_type& value() const
     {
+        if (! has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::value (not a leaf node)");
+        }
         return std::get<0>(__impl);
     }
 
@@ -315,6 +319,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const children_array_type& children() const
     {
+        if (has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::children (is a leaf node)");
+        }
         return *std::get<1>(__impl);
     }
 
-- 
2.43.0


From bde0ac3304bbea94f288f8dbac4e04f31b4cccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 02/44] fix: tree contains() does not descend below level zero

For a level-0 index on an internal node it went on with level - 1, shifting by
a negative amount.
---
 src/core_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 109a2e0..61253e7 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -497,6 +497,10 @@ struct mara::arithmetic_binary_tree_t
         {
             return index.level == 0 && ! index.coordinates.any();
         }
+        if (index.level == 0)
+        {
+            return false;
+        }
         return child_at(index.orthant()).contains(index.advance_level());
     }
 
-- 
2.43.0


From 75d1241df5387409c3f7db73659e45289d116a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 03/44] fix: hilbert_index passes the number of blocks per
 side, not the level

With the level as the side length the curve covered only a few blocks, and
distinct blocks of a level had the same linear index.
---
 src/core_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 61253e7..bb579c3 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -1075,5 +1075,5 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
         return d;
     };
 
-    return xy2d(index.level, index.coordinates[0], index.coordinates[1]);
+    return xy2d(1 << index.level, index.coordinates[0], index.coordinates[1]);
 }
-- 
2.43.0


From 9d7372f265c7a7d84acf1f081bec9df3f36d29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 04/44] fix: rational zero has one canonical form

0 / n kept its denominator, so that zeros with different denominators
compared unequal (e.g. 1/2 - 1/2 != 0).
---
 src/core_rational.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index e391319..bd09abe 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -189,6 +189,10 @@ private:
             num /= g;
             den /= g;
         }
+        else
+        {
+            den = 1;
+        }
         if (den < 0)
         {
             num *= -1;
-- 
2.43.0


From aeebda76b58e9115aa81b05638125a17bb954cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 05/44] fix: iterating an empty access pattern visits no index

With zero extent on one axis only, begin() was not end(): the iteration of a
3 x 0 array visited indexes outside it (writing out of bounds when the array
was evaluated), and an empty slab of a partitioned shape was visited anyway.
An empty range with jumps > 1 also reported a huge extent.
---
 src/core_ndarray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 5e37083..9427a14 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -553,7 +553,7 @@ public:
 
         for (std::size_t n = 0; n < Rank; ++n)
         {
-            s[n] = (final[n] - start[n] - 1) / jumps[n] + 1;
+            s[n] = final[n] > start[n] ? (final[n] - start[n] - 1) / jumps[n] + 1 : 0;
         }
         return s;
     }
@@ -716,7 +716,7 @@ public:
 
 
     //=========================================================================
-    iterator begin() const { return { *this, start }; }
+    iterator begin() const { return { *this, empty() ? final : start }; }
     iterator end() const { return { *this, final }; }
 
 
-- 
2.43.0


From 99694d4dbd73011667f97ed782e76d5f33bc0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 06/44] fix: strided selections that end inside the array are
 within it

The bound was checked one whole stride past the last selected index, so that
e.g. selecting 0, 3, 6, 9 from an array of size 10 was rejected.
---
 src/core_ndarray.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 9427a14..cbfaa68 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -704,12 +704,17 @@ public:
      */
     bool within(const shape_t<Rank>& parent_shape) const
     {
-        auto zero = make_uniform_index<Rank>(0);
-        auto t1 = map_index(zero);
-        auto t2 = map_index(shape().last_index());
+        if (empty())
+        {
+            return start <= parent_shape.last_index();
+        }
+        auto last = shape().last_index();
 
-        return (t1 >= zero && t1 <= parent_shape.last_index() &&
-                t2 >= zero && t2 <= parent_shape.last_index());
+        for (std::size_t n = 0; n < Rank; ++n)
+        {
+            last[n] -= 1;
+        }
+        return parent_shape.contains(map_index(last));
     }
 
 
-- 
2.43.0


From 5c408e1ef9b86e216a5e1f7089edd4c195aefd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 07/44] fix: compute the volume of a shape in std::size_t

The product was accumulated in an int, which overflows for 2^31 elements.
---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index cbfaa68..ea0f40e 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -327,7 +327,7 @@ public:
 
     std::size_t volume() const
     {
-        return std::accumulate(this->begin(), this->end(), 1, std::multiplies<>());
+        return std::accumulate(this->begin(), this->end(), std::size_t(1), std::multiplies<>());
     }
 
     bool contains(const index_t<Rank>& index) const
-- 
2.43.0


From 5bcd6fa26d7cc6332b0864ac07b60a12ebd39508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 08/44] fix: arange(start, final, step) stops one past the end

The number of elements was final / step - start / step, which drops the last
one when the range is not a multiple of the step (arange(0, 5, 2) was 0, 2),
and negative elements were computed in std::size_t.
---
 src/core_ndarray.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index ea0f40e..b4a64eb 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -2522,14 +2522,16 @@ auto nd::arange(int count)
  */
 auto nd::arange(int start, int final, int step)
 {
-    if (step == 0 || final / step - start / step < 0)
+    if (step == 0 || (step > 0 ? final < start : final > start))
     {
         throw std::invalid_argument("nd::range");
     }
+    auto count = (final - start + step - (step > 0 ? 1 : -1)) / step;
+
     return make_array([=] (auto index)
     {
-        return start + index[0] * step;
-    }, nd::make_shape(final / step - start / step));
+        return start + int(index[0]) * step;
+    }, nd::make_shape(count));
 }
 
 
-- 
2.43.0


From 1d45b620c96436288573e0aaf1a34c2e3d0b31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 09/44] fix: the thread pool delivers a task's exception
 through its future

The exception escaped the worker thread, which terminates the process; the
std::async overloads of the same tree operations deliver it to the caller.
---
 src/core_thread_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index 16387c2..b3ef5ba 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -104,7 +104,13 @@ public:
 
         enqueue_internal([fn, promised_result, args...]
         {
-            promised_result->set_value(fn(args...));
+            try {
+                promised_result->set_value(fn(args...));
+            }
+            catch (...)
+            {
+                promised_result->set_exception(std::current_exception());
+            }
         });
         return promised_result->get_future();
     }
-- 
2.43.0


From e97e464ab677beb113cec630a21d3f4587b13546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 10/44] fix: the thread pool sets its stop flag under the mutex

A worker that had evaluated the wait predicate but was not waiting yet missed
the notification, and joining it never returned.
---
 src/core_thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index b3ef5ba..ebc7211 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -85,7 +85,10 @@ public:
     {
         if (! stop)
         {
-            stop = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex);
+                stop = true;
+            }
             condition.notify_all();
 
             for (auto& thread : threads)
-- 
2.43.0


From c25f2e601373bfda0dd118ab971a0305438b88ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:20 +0000
Subject: [PATCH 11/44] fix: get_cell_block and get_vertex_block throw on
 over-refined neighbors

Asked for a block two or more levels below a leaf they recursed into ever
deeper children until the stack overflowed, instead of the documented throw.
---
 src/mesh_tree_operators.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesh_tree_operators.hpp b/src/mesh_tree_operators.hpp
index a02a36a..b617abb 100644
--- a/src/mesh_tree_operators.hpp
+++ b/src/mesh_tree_operators.hpp
@@ -239,6 +239,11 @@ auto mara::get_cell_block(const arithmetic_binary_tree_t<ValueType, Rank>& tree,
             return (tree.at(index.parent_index()) | mara::refine_cells<Rank>())[ib] | post;
         }
 
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no block at or just above the target index");
+        }
+
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
         return mara::combine_cells(index.child_indexes().map([tree] (auto i) { return get_cell_block(tree, i, nd::to_shared()); }))
@@ -279,6 +284,11 @@ auto mara::get_vertex_block(const arithmetic_binary_tree_t<ValueType, Rank>& tre
             return (tree.at(index.parent_index()) | mara::refine_verts<Rank>())[ib].shared();
         }
 
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no block at or just above the target index");
+        }
+
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
         return mara::combine_verts(index.child_indexes().map([tree] (auto i) { return get_vertex_block(tree, i); }))
-- 
2.43.0


From ff893af8439e08de2c8530d63a07cfe3e6afc686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:34 +0000
Subject: [PATCH 12/44] fix: unit_vector_t normalizes its components

---
 src/core_geometric.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_geometric.hpp b/src/core_geometric.hpp
index 3ce7484..311bac0 100644
--- a/src/core_geometric.hpp
+++ b/src/core_geometric.hpp
@@ -74,12 +74,12 @@ public:
     }
 
     unit_vector_t() {}
-    unit_vector_t(double n1, double n2, double n3) : n1(n1), n2(n2), n3(n3)
+    unit_vector_t(double n1, double n2, double n3)
     {
         auto n = std::sqrt(n1 * n1 + n2 * n2 + n3 * n3);
-        n1 /= n;
-        n2 /= n;
-        n3 /= n;
+        this->n1 = n1 / n;
+        this->n2 = n2 / n;
+        this->n3 = n3 / n;
     }
 
     template<typename ScalarType>
-- 
2.43.0


From 7c5ad1f3951806ebeeccdeea6a14c8b30e277aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:34 +0000
Subject: [PATCH 13/44] fix: comparing derivable tuples compiles

---
 src/core_tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_tuple.hpp b/src/core_tuple.hpp
index f8d82bc..4b855dd 100644
--- a/src/core_tuple.hpp
+++ b/src/core_tuple.hpp
@@ -227,8 +227,8 @@ template<typename DerivedType, typename... Types>
 struct mara::derivable_tuple_t
 {
     //=========================================================================
-    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequenc().all(); }
-    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequenc().any(); }
+    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequence().all(); }
+    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequence().any(); }
     template<typename T> DerivedType operator*(const T& other)   const { return DerivedType{{__impl.operator*(other)}}; }
     template<typename T> DerivedType operator/(const T& other)   const { return DerivedType{{__impl.operator/(other)}}; }
     DerivedType operator+(const DerivedType& other) const { return DerivedType{{__impl.operator+(other.__impl)}}; }
-- 
2.43.0


From 3d81a2e0f0053b519087ffe2929ff80ac55b407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:33 +0000
Subject: [PATCH 14/44] fix: roots of values with negative dimensions have the
 right dimensions

---
 src/core_dimensional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_dimensional.hpp b/src/core_dimensional.hpp
index 9840923..89aad7d 100644
--- a/src/core_dimensional.hpp
+++ b/src/core_dimensional.hpp
@@ -224,11 +224,11 @@ struct mara::dimensional_value_t
     template<int N, unsigned D=1>
     auto pow() const
     {
-        static_assert((C * N) % D == 0, "non-integer dimensions not supported");
-        static_assert((G * N) % D == 0, "non-integer dimensions not supported");
-        static_assert((S * N) % D == 0, "non-integer dimensions not supported");
+        static_assert((C * N) % int(D) == 0, "non-integer dimensions not supported");
+        static_assert((G * N) % int(D) == 0, "non-integer dimensions not supported");
+        static_assert((S * N) % int(D) == 0, "non-integer dimensions not supported");
 
-        return dimensional_value_t<C * N / D, G * N / D, S * N / D, T>
+        return dimensional_value_t<C * N / int(D), G * N / int(D), S * N / int(D), T>
         {
             std::pow(value, T(N) / D)
         };
-- 
2.43.0


From 503426b2af12b4dc300799723422a62236c5d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:25 +0000
Subject: [PATCH 15/44] fix: read_tree parses leaf names with the rank of the
 tree

---
 src/app_serialize_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_serialize_tree.hpp b/src/app_serialize_tree.hpp
index 6fb2f7c..23d0d06 100644
--- a/src/app_serialize_tree.hpp
+++ b/src/app_serialize_tree.hpp
@@ -138,7 +138,7 @@ void mara::read_tree(h5::Group&& group, arithmetic_binary_tree_t<ValueType, Rank
     for (auto dataset : group)
     {
         auto value = group.read<ValueType>(dataset);
-        tree = std::move(tree).insert(mara::read_tree_index<2>(dataset), value);
+        tree = std::move(tree).insert(mara::read_tree_index<Rank>(dataset), value);
     }
 }
 
-- 
2.43.0


From cebe0f2ef95d4fded6e0964059fa9b329968c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:26 +0000
Subject: [PATCH 16/44] fix: empty strings read back from HDF5 are empty

---
 src/app_serialize.hpp | 4 ++++
 src/core_hdf5.hpp     | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index a5ecfc8..38a0056 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -323,6 +323,10 @@ struct h5::hdf5_type_info<mara::config_parameter_t>
     }
     static auto finalize(mara::config_parameter_t&& value)
     {
+        if (auto string = std::get_if<std::string>(&value))
+        {
+            *string = hdf5_type_info<std::string>::finalize(std::move(*string));
+        }
         return std::move(value);
     }
     static auto get_address(mara::config_parameter_t& value) -> void*
diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index dcaf458..616c082 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -478,7 +478,7 @@ struct h5::hdf5_type_info<std::string>
     static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
     static auto convert_to_writable(const native_type& value) { return value; }
     static auto prepare(const Datatype& type, const Dataspace&) { return native_type(type.size(), 0); }
-    static auto finalize(native_type&& value) { return std::move(value); }
+    static auto finalize(native_type&& value) { return value == native_type(1, 0) ? native_type() : std::move(value); } // empty strings are stored as a single null character
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
 };
-- 
2.43.0


From ef677862262480e4b204f071e1e202d82c16928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:26 +0000
Subject: [PATCH 17/44] fix: a selection of a dataset can be read into a vector

---
 src/core_hdf5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 616c082..b78b82f 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -490,7 +490,7 @@ struct h5::hdf5_type_info<std::vector<ValueType>>
     static auto make_datatype_for(const native_type&) { return h5::make_datatype_for(ValueType()); }
     static auto make_dataspace_for(const native_type& value) { return Dataspace{value.size()}; }
     static auto convert_to_writable(const native_type& value) { return value; }
-    static auto prepare(const Datatype&, const Dataspace& space) { return native_type(space.size()); }
+    static auto prepare(const Datatype&, const Dataspace& space) { return native_type(space.selection_size()); }
     static auto finalize(native_type&& value) { return std::move(value); }
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
-- 
2.43.0


From ea4957c2da39c6c976bfd19ef13a8ba9299e283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:26 +0000
Subject: [PATCH 18/44] fix: assigning to an HDF5 file, group, or dataset
 closes the old one

---
 src/core_hdf5.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index b78b82f..26c4a18 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -670,6 +670,7 @@ public:
     Dataset(const Dataset&) = delete;
     Dataset& operator=(Dataset&& other)
     {
+        close();
         link = std::move(other.link);
         return *this;
     }
@@ -908,6 +909,7 @@ public:
     Group(Group&& other) : Location(std::move(other.link)) {}
     Group& operator=(Group&& other)
     {
+        close();
         link = std::move(other.link);
         return *this;
     }
@@ -961,6 +963,7 @@ public:
 
     File& operator=(File&& other)
     {
+        close();
         link = std::move(other.link);
         return *this;
     }
-- 
2.43.0


From c866cf561db9b7264cd9e937b87c88598f607c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:34 +0000
Subject: [PATCH 19/44] fix: remove_recurse removes symbolic links, not what
 they point to

---
 src/app_filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index f7a952e..95da3dc 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -185,7 +185,7 @@ int mara::filesystem::remove_recurse(std::string path)
             std::snprintf(&buf[0], buf.size(), "%s/%s", path.data(), p->d_name);
             struct stat statbuf;
 
-            if (! stat(buf.data(), &statbuf))
+            if (! lstat(buf.data(), &statbuf))
             {
                 if (S_ISDIR(statbuf.st_mode))
                 {
-- 
2.43.0


From 995c50aa2352f7434c1c1c396e4cc683b5c33823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:34 +0000
Subject: [PATCH 20/44] fix: isfile and isdir compare the file type, not single
 bits of it

---
 src/app_filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 95da3dc..412003a 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -214,7 +214,7 @@ bool mara::filesystem::isfile(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFREG;
+        return S_ISREG(s.st_mode);
     }
     return false;
 }
@@ -225,7 +225,7 @@ bool mara::filesystem::isdir(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFDIR;
+        return S_ISDIR(s.st_mode);
     }
     return false;
 }
-- 
2.43.0


From 19cd7d1c984006ec11eaa2d7ade954027ef19032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:34 +0000
Subject: [PATCH 21/44] fix: require_dir creates absolute paths where they say

---
 src/app_filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 412003a..cc2f74f 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -136,7 +136,7 @@ std::string mara::filesystem::parent(std::string path)
 
 void mara::filesystem::require_dir(std::string path)
 {
-    auto partial = std::string(".");
+    auto partial = std::string(path.empty() || path[0] != '/' ? "." : "");
 
     for (auto dir : split(path))
     {
-- 
2.43.0


From 9afdd16696ba4c7dcd96199d7a0e36bea0acb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 22/44] fix: euler recover_primitive applies the temperature
 floor it documents

---
 src/physics_euler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics_euler.hpp b/src/physics_euler.hpp
index 0eacbc1..2fe6e71 100644
--- a/src/physics_euler.hpp
+++ b/src/physics_euler.hpp
@@ -27,6 +27,7 @@
 
 
 #pragma once
+#include <algorithm>
 #include <cmath>
 #include "core_geometric.hpp"
 #include "core_matrix.hpp"
@@ -567,9 +568,9 @@ mara::euler::primitive_t mara::euler::recover_primitive(
     P[3] =  U[3].value / d;
     P[4] = (U[4].value - 0.5 * p_squared / d) * (gamma_law_index - 1.0);
 
-    if (P[4] < 0.0 && temperature_floor > 0.0)
+    if (temperature_floor > 0.0)
     {
-        P[4] = temperature_floor * d;
+        P[4] = std::max(P[4], temperature_floor * d);
     }
     return P;
 }
-- 
2.43.0


From 11deef6af7756042e300a47548513e501d9db543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:18 +0000
Subject: [PATCH 23/44] fix: srhd recover_primitive converges relative to the
 state, at any density

---
 src/physics_srhd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_srhd.hpp b/src/physics_srhd.hpp
index 9f27119..136e7bd 100644
--- a/src/physics_srhd.hpp
+++ b/src/physics_srhd.hpp
@@ -405,7 +405,7 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
         auto g = v2 * cs2 - 1.0;
         p -= f / g;
 
-        if (std::fabs(f) < error_tolerance)
+        if (std::fabs(f) < error_tolerance * (D + std::fabs(p)))
         {
             W0 = W;
             solution_found = true;
-- 
2.43.0


From f03219e8459982b5090ff628857a5ab287381b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:39 +0000
Subject: [PATCH 24/44] fix: quartic_roots finds the real pair of (nearly)
 symmetric quartics

---
 src/math_polynomial.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/math_polynomial.hpp b/src/math_polynomial.hpp
index 856b9e4..bb23041 100644
--- a/src/math_polynomial.hpp
+++ b/src/math_polynomial.hpp
@@ -138,26 +138,28 @@ mara::quartic_roots_t mara::quartic_roots(double d4, double d3, double d2, doubl
     auto cubic = cubic_roots(1.0, au2, au1, au0);
     auto u1 = cubic.num_roots == 1 ? cubic.x1 : std::max(cubic.x1, cubic.x3);
     auto R2 = 0.25 * a3 * a3 + u1 - a2;
-    auto R = (R2 > 0.0) ? std::sqrt(R2) : 0.0;
-
-    double D2, E2;
+    auto S2 = 0.25 * u1 * u1 - a0;
+    auto RS = 0.25 * a3 * u1 - 0.5 * a1;
     auto result = quartic_roots_t();
 
-    if (R != 0.0)
+    // The polynomial is (x^2 + a3 x / 2 + u1 / 2)^2 - (R x + S)^2. Either one
+    // of R or S may be close to zero, and is then computed from the other one.
+    double R, S;
+
+    if (R2 > 0.0 && R2 * R2 > S2)
     {
-        auto f = 0.75 * a3 * a3 - R2 - 2.0 * a2;
-        auto g = 0.25 * (4.0 * a3 * a2 - 8.0 * a1 - a3 * a3 * a3) / R;
-        D2 = f + g;
-        E2 = f - g;
+        R = std::sqrt(R2);
+        S = RS / R;
     }
     else
     {
-        auto f = 0.75 * a3 * a3 - 2.0 * a2;
-        auto g = 2.00 * std::sqrt(u1 * u1 - 4.0 * a0);
-        D2 = f + g;
-        E2 = f - g;
+        S = std::copysign(std::sqrt(std::max(S2, 0.0)), RS);
+        R = S == 0.0 ? 0.0 : RS / S;
     }
 
+    auto D2 = (0.5 * a3 - R) * (0.5 * a3 - R) - 2.0 * u1 + 4.0 * S;
+    auto E2 = (0.5 * a3 + R) * (0.5 * a3 + R) - 2.0 * u1 - 4.0 * S;
+
     if (D2 >= 0.0)
     {
         auto D = std::sqrt(D2);
-- 
2.43.0


From 9084e5857dcdbb98b679305425684ae6083038ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:44 +0000
Subject: [PATCH 25/44] fix: srhd recover_primitive refuses superluminal
 conserved states

---
 src/physics_srhd.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/physics_srhd.hpp b/src/physics_srhd.hpp
index 136e7bd..9ed04c1 100644
--- a/src/physics_srhd.hpp
+++ b/src/physics_srhd.hpp
@@ -415,6 +415,7 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
     }
 
     auto P = primitive_t();
+    auto superluminal = SS >= std::pow(tau + D + p, 2);
 
     if (temperature_floor > 0.0)
     {
@@ -432,6 +433,11 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
         throw std::invalid_argument("mara::srhd::recover_primitive failure: "
             "root finder not converging U=" + mara::to_string(U));
     }
+    if (superluminal)
+    {
+        throw std::invalid_argument("mara::srhd::recover_primitive failure: "
+            "superluminal velocity U=" + mara::to_string(U));
+    }
     if (P.mass_density() <= 0.0)
     {
         throw std::invalid_argument("mara::srhd::recover_primitive failure: "
-- 
2.43.0


From fc884baabd99b6ec80058fc9c511c5d20912279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:50 +0000
Subject: [PATCH 26/44] fix: mean_anomaly is measured from periapse

---
 src/model_two_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 035abc7..90c4ff5 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -486,7 +486,7 @@ double mara::mean_anomaly(const full_orbital_elements_t& params, double t)
         t += P;
     }
     auto omega = 2 * M_PI / P;
-    return omega * t;
+    return omega * (t - params.tau);
 }
 
 mara::full_orbital_elements_t mara::diff(const full_orbital_elements_t& a, const full_orbital_elements_t& b)
-- 
2.43.0


From b6c92bad8806849bcf08052814dc11d5d52538d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:50 +0000
Subject: [PATCH 27/44] fix: orbital elements of nearly circular orbits
 describe the orbit they came from

---
 src/model_two_body.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 90c4ff5..38c446c 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -353,13 +353,19 @@ mara::full_orbital_elements_t mara::compute_orbital_elements(const two_body_stat
     double b1 = b * q / (1.0 + q);
 
 
-    // cos of nu and f: phase angle and true anomaly
+    // cos and sin of nu, the phase angle
     double cn = e == 0.0 ? x1 / r1 : (1.0 - r1 / a1) / e;
-    double cf = a1 / r1 * (cn - e);
+    double sn = e == 0.0 ? y1 / r1 : (vx1 * x1 + vy1 * y1) / (e * v1 * r1) * std::sqrt(1.0 - e * e * cn * cn);
+    double nn = std::sqrt(cn * cn + sn * sn);
 
 
-    // sin of nu and f
-    double sn = e == 0.0 ? y1 / r1 : (vx1 * x1 + vy1 * y1) / (e * v1 * r1) * std::sqrt(1.0 - e * e * cn * cn);
+    // the phase angle is ill-determined when the orbit is nearly circular
+    cn = nn == 0.0 ? x1 / r1 : cn / nn;
+    sn = nn == 0.0 ? y1 / r1 : sn / nn;
+
+
+    // cos and sin of the true anomaly
+    double cf = a1 / r1 * (cn - e);
     double sf = (b1 / r1) * sn;
 
 
-- 
2.43.0


From d5564bb9e7fdda0c99db97ff2daf1769e0170c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:02 +0000
Subject: [PATCH 28/44] fix: power_law_atmosphere_model::with_total_mass gives
 the requested mass

---
 src/model_atmosphere.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_atmosphere.hpp b/src/model_atmosphere.hpp
index 1979f2f..cfa7093 100644
--- a/src/model_atmosphere.hpp
+++ b/src/model_atmosphere.hpp
@@ -97,7 +97,7 @@ struct mara::power_law_atmosphere_model
     power_law_atmosphere_model with_outer_index  (double new_n2) const { return {f0, r0, rc, n1, new_n2}; }
     power_law_atmosphere_model with_total_mass(double new_total_mass) const
     {
-        return with_coefficient(new_total_mass / total_mass());
+        return with_coefficient(f0 * new_total_mass / total_mass());
     }
 
     double mass_within_cutoff() const
-- 
2.43.0


From f6ac48d1f3fde00507afb9a09a1d9a006a3deb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 29/44] fix: binary maximum_timestep works in the angular
 momentum conserving form

---
 src/subprog_binary_scheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 9bbf3a1..263af0f 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -1111,7 +1111,7 @@ double binary::maximum_timestep(const solution_t& solution,
     auto binary = mara::compute_two_body_state(solution.orbital_elements, solution.time.value);
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
 
-    return solution.conserved_u.indexes().map([&] (auto index)
+    return primitive.indexes().map([&] (auto index)
     {
         auto xc = solver_data.cell_centers.at(index);
         auto pc = primitive.at(index);
-- 
2.43.0


From ecde6ba489f5a5fd6507567e89a0b9522e31ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 30/44] fix: binary honours reconstruct_method=pcm

---
 src/subprog_binary_scheme.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 263af0f..be0eafc 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -278,8 +278,9 @@ static auto intercell_flux_u(
         auto [pl, pr] = p0;
         auto [gl, gr] = g_long;
 
-        auto pl_hat = pl + gl * 0.5 * grid_spacing;
-        auto pr_hat = pr - gr * 0.5 * grid_spacing;
+        auto dx_hat = solver_data.reconstruct_method == binary::reconstruct_method_t::pcm ? 0.0 : 0.5 * grid_spacing;
+        auto pl_hat = pl + gl * dx_hat;
+        auto pr_hat = pr - gr * dx_hat;
         auto cs2 = cs2_at_position(xf, binary, solver_data);
         auto nu = nu_at_position(xf, cs2, solver_data);
         auto mu = 0.5 * nu * (pl_hat.sigma() + pr_hat.sigma());
@@ -306,8 +307,9 @@ static auto intercell_flux_q(
         auto [pl, pr] = p0;
         auto [gl, gr] = g_long;
 
-        auto pl_hat = pl + gl * 0.5 * grid_spacing;
-        auto pr_hat = pr - gr * 0.5 * grid_spacing;
+        auto dx_hat = solver_data.reconstruct_method == binary::reconstruct_method_t::pcm ? 0.0 : 0.5 * grid_spacing;
+        auto pl_hat = pl + gl * dx_hat;
+        auto pr_hat = pr - gr * dx_hat;
         auto cs2 = cs2_at_position(xf, binary, solver_data);
         auto nu = nu_at_position(xf, cs2, solver_data);
         auto mu = 0.5 * nu * (pl_hat.sigma() + pr_hat.sigma());
-- 
2.43.0


From 7a80d2f433d0931072188cc167055543e9deb576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 31/44] fix: binary begin_live_binary is in orbits, as
 documented

---
 src/subprog_binary_solver_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_solver_data.cpp b/src/subprog_binary_solver_data.cpp
index 768fe43..ca4bf0c 100644
--- a/src/subprog_binary_solver_data.cpp
+++ b/src/subprog_binary_solver_data.cpp
@@ -90,7 +90,7 @@ binary::solver_data_t binary::create_solver_data(const mara::config_t& run_confi
     result.softening_radius      = run_config.get_double("softening_radius");
     result.gst_suppr_radius      = run_config.get_double("source_term_softening") * std::min(min_dx, min_dy).value;
     result.plm_theta             = run_config.get_double("plm_theta");
-    result.begin_live_binary     = run_config.get_double("begin_live_binary");
+    result.begin_live_binary     = run_config.get_double("begin_live_binary") * 2 * M_PI;
     result.axisymmetric_cs2      = run_config.get_int("axisymmetric_cs2");
     result.conserve_linear_p     = run_config.get_int("conserve_linear_p");
     result.fixed_dt              = run_config.get_int("fixed_dt");
-- 
2.43.0


From 66c15826807779a403c5a6287671af700d5eb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:34 +0000
Subject: [PATCH 32/44] fix: binary separation=0 does not turn the solution
 into NaN

---
 src/subprog_binary_scheme.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index be0eafc..e067976 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -883,8 +883,9 @@ binary::solution_t binary::advance_u(const solution_t& solution, const solver_da
 
     auto live  = solution.time > solver_data.begin_live_binary;
     auto E0    = solution.orbital_elements;
-    auto E_acc = mara::compute_orbital_elements({body1_acc, body2_acc}, solution.time.value);
-    auto E_grv = mara::compute_orbital_elements({body1_grv, body2_grv}, solution.time.value);
+    auto alone = E0.elements.separation == 0.0; // a single body has no orbit to perturb
+    auto E_acc = alone ? E0 : mara::compute_orbital_elements({body1_acc, body2_acc}, solution.time.value);
+    auto E_grv = alone ? E0 : mara::compute_orbital_elements({body1_grv, body2_grv}, solution.time.value);
 
     // The full updated solution state
     //=========================================================================
@@ -999,8 +1000,9 @@ binary::solution_t binary::advance_q(const solution_t& solution, const solver_da
 
     auto live  = solution.time > solver_data.begin_live_binary;
     auto E0    = solution.orbital_elements;
-    auto E_acc = mara::compute_orbital_elements({body1_acc, body2_acc}, solution.time.value);
-    auto E_grv = mara::compute_orbital_elements({body1_grv, body2_grv}, solution.time.value);
+    auto alone = E0.elements.separation == 0.0; // a single body has no orbit to perturb
+    auto E_acc = alone ? E0 : mara::compute_orbital_elements({body1_acc, body2_acc}, solution.time.value);
+    auto E_grv = alone ? E0 : mara::compute_orbital_elements({body1_grv, body2_grv}, solution.time.value);
 
     // The full updated solution state
     //=========================================================================
-- 
2.43.0


From b1d37b9b7476142f78ad5f8ca64b25a9fd73b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:34 +0000
Subject: [PATCH 33/44] fix: sedov reads the run config from the group its
 checkpoints have it in

Checkpoints are written with a group "config", but restarting looked for
"run_config", so no sedov run could be restarted.
---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 47b921a..d04e5cc 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -473,7 +473,7 @@ static auto create_run_config(int argc, const char* argv[])
     return args.count("restart")
     ? config_template()
             .create()
-            .update(mara::read_config(h5::File(args.at("restart"), "r").open_group("run_config")))
+            .update(mara::read_config(h5::File(args.at("restart"), "r").open_group("config")))
             .update(args)
     : new_run_config(args);
 }
-- 
2.43.0


From f38192e239295c080a2fc8bb59677a12d544fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:35 +0000
Subject: [PATCH 34/44] fix: sedov, cloud and boilerplate checkpoints record
 themselves as written

The schedule in a checkpoint was the one from before the checkpoint (and the
other tasks due at the same time) were done. A restarted run overwrote the
checkpoint it was started from with a later one, and repeated diagnostics and
time series entries under the wrong numbers.
---
 src/subprog_boilerplate.cpp |  2 +-
 src/subprog_cloud.cpp       | 12 ++++++------
 src/subprog_sedov.cpp       | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/subprog_boilerplate.cpp b/src/subprog_boilerplate.cpp
index c8092ac..126f709 100644
--- a/src/subprog_boilerplate.cpp
+++ b/src/subprog_boilerplate.cpp
@@ -203,7 +203,7 @@ static void write_checkpoint(const app_state_t& state)
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::create_numbered_filename("chkpt", count, "h5"), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index e2d9a96..a790457 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -760,7 +760,7 @@ void CloudProblem::write_checkpoint(const app_state_t& state, std::string outdir
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -831,11 +831,6 @@ auto CloudProblem::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -846,6 +841,11 @@ auto CloudProblem::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint")) // last, so the other tasks are not repeated after a restart
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index d04e5cc..1044232 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -488,7 +488,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -562,11 +562,6 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -577,6 +572,11 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint")) // last, so the other tasks are not repeated after a restart
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
-- 
2.43.0


From 6c439699ce3480f3760816020885d19f2744029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:53 +0000
Subject: [PATCH 35/44] fix: sedov shock_radius_interpolated does not read
 outside the profile

When the pressure keeps rising toward the inner boundary, the zone behind the
shock is zone 0, and the fit read the zone before it.
---
 src/subprog_sedov.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 1044232..b052e0c 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -291,6 +291,10 @@ auto SedovProblem<HydroSystem>::compute_time_series_data(const solution_state_t&
 
     auto find_vertex = [rc, vc] (auto i)
     {
+        if (i == 0 || i + 1 == rc.size())
+        {
+            return rc(i); // no parabola through the zones on both sides
+        }
         return mara::parabola_vertex(
             rc(i - 1), rc(i), rc(i + 1),
             vc(i - 1), vc(i), vc(i + 1)).first;
-- 
2.43.0


From 2923ca5a0a6de594ded561abc7e772004a7a8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 36/44] fix: recv and irecv receive the message whose size was
 probed

With any_source or any_tag, the receive could match a message other than the
probed one, with a different size: it was truncated (an MPI error), or padded
with zeros.
---
 src/core_mpi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 8e85c13..4dc7bf6 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -535,7 +535,7 @@ public:
         auto status = probe(source, tag);
         auto buf = std::string(status.count(), 0);
 
-        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, MPI_STATUS_IGNORE);
+        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, MPI_STATUS_IGNORE);
         return buf;
     }
 
@@ -558,7 +558,7 @@ public:
         auto buf = std::string(status.count(), 0);
 
         MPI_Request request;
-        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, &request);
+        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, &request);
 
         Request res;
         res.buffer = std::move(buf);
-- 
2.43.0


From 17e80959ac3e7174c90a781891d9eddd09e7a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 37/44] fix: the buffer of a pending isend or irecv stays where
 it is

Short messages live inside the std::string object, so moving it into the
Request (or moving the Request) changed the address that MPI was given: the
message was read from, or written to, memory that was no longer the buffer.
Move-assigning a request to itself no longer cancels it.
---
 src/core_mpi.hpp | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 4dc7bf6..f3c497f 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -27,6 +27,7 @@
 
 
 #include <string>
+#include <memory>
 #include <numeric>
 #include <vector>
 #include <fstream>
@@ -130,7 +131,7 @@ public:
      */
     Request(Request&& other)
     {
-        buffer = std::move(other.buffer);
+        buffer.swap(other.buffer);
         request = other.request;
         other.request = MPI_REQUEST_NULL;
     }
@@ -159,11 +160,14 @@ public:
      */
     Request& operator=(Request&& other)
     {
-        cancel();
-        buffer = std::move(other.buffer);
-        request = other.request;
-        other.request = MPI_REQUEST_NULL;
-        return *this;        
+        if (this != &other)
+        {
+            cancel();
+            buffer.swap(other.buffer);
+            request = other.request;
+            other.request = MPI_REQUEST_NULL;
+        }
+        return *this;
     }
 
 
@@ -233,7 +237,7 @@ public:
     {
         wait();
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
-        return buffer;
+        return *buffer;
     }
 
 
@@ -245,7 +249,7 @@ public:
     {
         static_assert(std::is_trivially_copyable<T>::value, "type is not trivially copyable");
 
-        if (buffer.size() != sizeof(T))
+        if (buffer->size() != sizeof(T))
         {
             throw std::logic_error("received message has wrong size for data type");   
         }
@@ -255,7 +259,7 @@ public:
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
 
         auto value = T();
-        std::memcpy(&value, &buffer[0], sizeof(T));
+        std::memcpy(&value, &(*buffer)[0], sizeof(T));
         return value;
     }
 
@@ -264,7 +268,10 @@ private:
     // ========================================================================
     friend class Communicator;
     MPI_Request request = MPI_REQUEST_NULL;
-    std::string buffer;
+
+    // The message content is on the heap, because its address must not change
+    // when the request is moved while the operation is pending.
+    std::unique_ptr<std::string> buffer = std::make_unique<std::string>();
 };
 
 
@@ -555,14 +562,11 @@ public:
         {
             return Request();
         }
-        auto buf = std::string(status.count(), 0);
-
-        MPI_Request request;
-        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, &request);
-
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        auto& buf = *res.buffer;
+        buf.resize(status.count(), 0);
+
+        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, &res.request);
         return res;
     }
 
@@ -593,12 +597,10 @@ public:
      */
     Request isend(std::string buf, int rank, int tag=0) const
     {
-        MPI_Request request;
-        MPI_Isend(&buf[0], buf.size(), MPI_CHAR, rank, tag, comm, &request);
-
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        *res.buffer = std::move(buf);
+
+        MPI_Isend(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, rank, tag, comm, &res.request);
         return res;
     }
 
-- 
2.43.0


From 164eef3ae914b5ccc20b551faf04cc096ce03b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 38/44] fix: a communicator survives being assigned to itself

---
 src/core_mpi.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index f3c497f..dff4b2f 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -413,11 +413,14 @@ public:
      */
     Communicator& operator=(const Communicator& other)
     {
-        close();
-
-        if (! other.is_null())
+        if (this != &other)
         {
-            MPI_Comm_dup(other.comm, &comm);
+            close();
+
+            if (! other.is_null())
+            {
+                MPI_Comm_dup(other.comm, &comm);
+            }
         }
         return *this;
     }
@@ -428,10 +431,13 @@ public:
      */
     Communicator& operator=(Communicator&& other)
     {
-        close();
+        if (this != &other)
+        {
+            close();
 
-        comm = other.comm;
-        other.comm = MPI_COMM_NULL;
+            comm = other.comm;
+            other.comm = MPI_COMM_NULL;
+        }
         return *this;
     }
 
-- 
2.43.0


From 2d240a97b9672536625c3b425576f49b5e14d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:05 +0000
Subject: [PATCH 39/44] fix: rational arithmetic is exact whenever the result
 is representable

---
 src/core_rational.hpp | 67 ++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index bd09abe..604b7c3 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -27,6 +27,10 @@
 
 
 #pragma once
+#include <cstdint>
+#include <cstdlib>
+#include <limits>
+#include <stdexcept>
 #include <string>
 
 
@@ -54,26 +58,24 @@ public:
     //=========================================================================
     rational_number_t() {}
     rational_number_t(int integer) : num(integer), den(1) {}
-    rational_number_t(int num, int den)
-    : num(num)
-    , den(den)
+    rational_number_t(std::int64_t num, std::int64_t den)
     {
         if (den == 0)
         {
             throw std::invalid_argument("rational_number_t: indeterminate (divide by zero)");
         }
-        reduce();
+        reduce(num, den);
     }
 
     rational_number_t operator+() const { return rational_number_t(+num, den); }
-    rational_number_t operator-() const { return rational_number_t(-num, den); }
+    rational_number_t operator-() const { return rational_number_t(-std::int64_t(num), den); }
 
     double operator+(double other) const { return as_double() + other; }
     rational_number_t operator+(int other) const { return operator+(rational_number_t(other)); }
     rational_number_t operator+(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
+        auto a = std::int64_t(num);
+        auto b = std::int64_t(den);
         auto c = other.num;
         auto d = other.den;
         return rational_number_t(a * d + b * c, b * d);
@@ -84,8 +86,8 @@ public:
     rational_number_t operator-(int other) const { return operator-(rational_number_t(other)); }
     rational_number_t operator-(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
+        auto a = std::int64_t(num);
+        auto b = std::int64_t(den);
         auto c = other.num;
         auto d = other.den;
         return rational_number_t(a * d - b * c, b * d);
@@ -96,8 +98,8 @@ public:
     rational_number_t operator*(int other) const { return operator*(rational_number_t(other)); }
     rational_number_t operator*(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
+        auto a = std::int64_t(num);
+        auto b = std::int64_t(den);
         auto c = other.num;
         auto d = other.den;
         return rational_number_t(a * c, b * d);
@@ -107,8 +109,8 @@ public:
     rational_number_t operator/(int other) const { return operator/(rational_number_t(other)); }
     rational_number_t operator/(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
+        auto a = std::int64_t(num);
+        auto b = std::int64_t(den);
         auto c = other.num;
         auto d = other.den;
         return rational_number_t(a * d, b * c);
@@ -129,25 +131,25 @@ public:
     bool operator<(int other) const { return operator<(rational_number_t(other)); }
     bool operator<(const rational_number_t& other) const
     {
-        return (*this - other).num < 0;
+        return std::int64_t(num) * other.den < std::int64_t(other.num) * den;
     }
 
     bool operator>(int other) const { return operator>(rational_number_t(other)); }
     bool operator>(const rational_number_t& other) const
     {
-        return (*this - other).num > 0;
+        return std::int64_t(num) * other.den > std::int64_t(other.num) * den;
     }
 
     bool operator<=(int other) const { return operator<=(rational_number_t(other)); }
     bool operator<=(const rational_number_t& other) const
     {
-        return (*this - other).num <= 0;
+        return std::int64_t(num) * other.den <= std::int64_t(other.num) * den;
     }
 
     bool operator>=(int other) const { return operator>=(rational_number_t(other)); }
     bool operator>=(const rational_number_t& other) const
     {
-        return (*this - other).num >= 0;
+        return std::int64_t(num) * other.den >= std::int64_t(other.num) * den;
     }
 
     bool is_integral() const
@@ -179,25 +181,32 @@ public:
 private:
     /**
      * @brief      Put the rational number in a canonical form: the fraction is
-     *             reduced and the sign (if any) is put on the numerator.
+     *             reduced and the sign (if any) is put on the numerator. The
+     *             arguments are wide enough for the products of two ints.
      */
-    void reduce()
+    void reduce(std::int64_t n, std::int64_t d)
     {
-        if (num != 0)
+        if (n != 0)
         {
-            auto g = gcd(std::abs(num), std::abs(den));
-            num /= g;
-            den /= g;
+            auto g = gcd(std::abs(n), std::abs(d));
+            n /= g;
+            d /= g;
         }
         else
         {
-            den = 1;
+            d = 1;
         }
-        if (den < 0)
+        if (d < 0)
         {
-            num *= -1;
-            den *= -1;
+            n *= -1;
+            d *= -1;
         }
+        if (n < std::numeric_limits<int>::min() || n > std::numeric_limits<int>::max() || d > std::numeric_limits<int>::max())
+        {
+            throw std::overflow_error("rational_number_t: the result does not fit");
+        }
+        num = int(n);
+        den = int(d);
     }
 
     /**
@@ -205,7 +214,7 @@ private:
      *             integers. Implements the Binary GCD Algorithm.
      *
      */
-    static int gcd(unsigned int a, unsigned int b)
+    static std::int64_t gcd(std::uint64_t a, std::uint64_t b)
     {
         unsigned int d = 0;
 
@@ -222,7 +231,7 @@ private:
             else if (a > b) a = (a - b) / 2;
             else            b = (b - a) / 2;
         }
-        return a * (1 << d);
+        return a << d;
     }
 
     int num = 0;
-- 
2.43.0


From 65f3ba5e54fb6d45af7356b1cf668d5cd47b1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 40/44] fix: block addresses, their text and Hilbert numbers
 beyond level 15 (32-bit shifts)

---
 src/app_serialize_tree.hpp |  6 +++---
 src/core_tree.hpp          | 20 ++++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/app_serialize_tree.hpp b/src/app_serialize_tree.hpp
index 23d0d06..8c8aec1 100644
--- a/src/app_serialize_tree.hpp
+++ b/src/app_serialize_tree.hpp
@@ -80,7 +80,7 @@ std::string mara::format_tree_index(const tree_index_t<Rank>& index)
         ss
         << (i == 0 ? ':' : '-')
         << std::setfill('0')
-        << std::setw(1 + std::log10(1 << index.level))
+        << std::setw(1 + std::log10(std::size_t(1) << index.level))
         << index.coordinates[i];
     }
     return ss.str();
@@ -109,12 +109,12 @@ mara::tree_index_t<Rank> mara::read_tree_index(std::string str)
 
     auto result = tree_index_t<Rank>();
 
-    result.level = std::stoi(str.substr(0, str.find(':')));
+    result.level = std::stoull(str.substr(0, str.find(':')));
     str.erase(0, str.find(':') + 1);
 
     for (std::size_t i = 0; i < Rank; ++i)
     {
-        result.coordinates[i] = std::stoi(str.substr(0, str.find('-')));
+        result.coordinates[i] = std::stoull(str.substr(0, str.find('-')));
         str.erase(0, str.find('-') + 1);
     }
     return result;
diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index bb579c3..8c92cca 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -98,7 +98,7 @@ struct mara::tree_index_t
      */
     bool valid() const
     {
-        return (coordinates < (1 << level)).all();
+        return (coordinates < (std::size_t(1) << level)).all();
     }
 
 
@@ -114,7 +114,7 @@ struct mara::tree_index_t
      */
     tree_index_t advance_level() const
     {
-        return {level - 1, coordinates - orthant() * (1 << (level - 1))};
+        return {level - 1, coordinates - orthant() * (std::size_t(1) << (level - 1))};
     }
 
 
@@ -186,7 +186,7 @@ struct mara::tree_index_t
      */
     arithmetic_sequence_t<bool, Rank> orthant() const
     {
-        return coordinates.map([this] (auto x) -> bool { return x / (1 << (level - 1)); });
+        return coordinates.map([this] (auto x) -> bool { return x / (std::size_t(1) << (level - 1)); });
     }
 
 
@@ -200,8 +200,8 @@ struct mara::tree_index_t
      *
      * @return     A new index, on the same level
      */
-    tree_index_t next_on(std::size_t a) const { return {level, coordinates.set(a, (coordinates.at(a) + (1 << level) + 1) % (1 << level))}; }
-    tree_index_t prev_on(std::size_t a) const { return {level, coordinates.set(a, (coordinates.at(a) + (1 << level) - 1) % (1 << level))}; }
+    tree_index_t next_on(std::size_t a) const { return {level, coordinates.set(a, (coordinates.at(a) + (std::size_t(1) << level) + 1) % (std::size_t(1) << level))}; }
+    tree_index_t prev_on(std::size_t a) const { return {level, coordinates.set(a, (coordinates.at(a) + (std::size_t(1) << level) - 1) % (std::size_t(1) << level))}; }
 
 
 
@@ -1046,7 +1046,7 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
 {
     // https://en.wikipedia.org/wiki/Hilbert_curve
 
-    auto rot = [] (int n, int *x, int *y, int rx, int ry)
+    auto rot = [] (std::size_t n, std::size_t *x, std::size_t *y, std::size_t rx, std::size_t ry)
     {
         if (ry == 0)
         {
@@ -1055,15 +1055,15 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
                 *x = n-1 - *x;
                 *y = n-1 - *y;
             }
-            int t = *x;
+            auto t = *x;
             *x = *y;
             *y = t;
         }
     };
 
-    auto xy2d = [rot] (int n, int x, int y)
+    auto xy2d = [rot] (std::size_t n, std::size_t x, std::size_t y)
     {
-        int rx, ry, s, d=0;
+        std::size_t rx, ry, s, d=0;
 
         for (s = n/2; s > 0; s /= 2)
         {
@@ -1075,5 +1075,5 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
         return d;
     };
 
-    return xy2d(1 << index.level, index.coordinates[0], index.coordinates[1]);
+    return xy2d(std::size_t(1) << index.level, index.coordinates[0], index.coordinates[1]);
 }
-- 
2.43.0


From f6d2745cab0b7add6cd84e18217303e850a61961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:06 +0000
Subject: [PATCH 41/44] fix: refuse option text of which only the beginning is
 a number of the option's type

---
 src/app_config.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/app_config.hpp b/src/app_config.hpp
index d143f4f..f003bfe 100644
--- a/src/app_config.hpp
+++ b/src/app_config.hpp
@@ -108,8 +108,8 @@ public:
         }
         switch (template_items.at(key).index())
         {
-            case 0: return std::move(*this).set(key, config_parameter_t(std::stoi(value)));
-            case 1: return std::move(*this).set(key, config_parameter_t(std::stod(value)));
+            case 0: return std::move(*this).set(key, config_parameter_t(parse_all(key, value, [] (auto s, auto n) { return std::stoi(s, n); })));
+            case 1: return std::move(*this).set(key, config_parameter_t(parse_all(key, value, [] (auto s, auto n) { return std::stod(s, n); })));
             case 2: return std::move(*this).set(key, config_parameter_t(value));
         }
         return *this;
@@ -145,6 +145,22 @@ public:
 
 private:
     //=========================================================================
+    template<typename Parser>
+    static auto parse_all(std::string key, std::string value, Parser parser) -> std::invoke_result_t<Parser, std::string, std::size_t*>
+    {
+        try {
+            std::size_t num_parsed = 0;
+            auto result = parser(value, &num_parsed);
+
+            if (num_parsed == value.size())
+            {
+                return result;
+            }
+        }
+        catch (const std::logic_error&) {}
+        throw std::invalid_argument("config got a malformed value for option " + key + ": " + value);
+    }
+
     config_parameter_map_t parameters;
     config_parameter_map_t template_items;
 };
-- 
2.43.0


From 6da8161d9b5276b52b5d5e10c815e87beec93dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:07 +0000
Subject: [PATCH 42/44] fix: srhd temperature floor raises the pressure without
 changing the velocity (and with it the mass)

---
 src/physics_srhd.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/physics_srhd.hpp b/src/physics_srhd.hpp
index 9ed04c1..fb7eb88 100644
--- a/src/physics_srhd.hpp
+++ b/src/physics_srhd.hpp
@@ -417,17 +417,17 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
     auto P = primitive_t();
     auto superluminal = SS >= std::pow(tau + D + p, 2);
 
-    if (temperature_floor > 0.0)
-    {
-        p = std::max(p, temperature_floor * D / W0);
-    }
-
     P[0] = D / W0;
     P[1] = W0 * U[S11].value / (tau + D + p);
     P[2] = W0 * U[S22].value / (tau + D + p);
     P[3] = W0 * U[S33].value / (tau + D + p);
     P[4] = p;
 
+    if (temperature_floor > 0.0)
+    {
+        P[4] = std::max(p, temperature_floor * D / W0);
+    }
+
     if (! solution_found)
     {
         throw std::invalid_argument("mara::srhd::recover_primitive failure: "
-- 
2.43.0


From fa0783305b93ea31723a2903ced14a7527d81638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 43/44] fix: names of exactly 1024 characters are listed in
 full

---
 src/core_hdf5.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 26c4a18..1f31a0a 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -619,10 +619,10 @@ private:
         bool operator!=(iterator other) const { return id != other.id || idx != other.idx; }
         std::string operator*() const
         {
-            static char name[1024];
+            static char name[1025];
 
             if (H5Lget_name_by_idx(id, ".",
-                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT) > 1024)
+                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, sizeof(name), H5P_DEFAULT) > 1024)
             {
                 throw std::overflow_error("object names longer than 1024 are not supported");
             }
-- 
2.43.0


From 6fe3d2ff90f8b4c695dc9604c7232a948e0e7e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 44/44] fix: integer minus rational does not overflow through
 the negation

---
 src/core_rational.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index 604b7c3..7ab4d5d 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -260,5 +260,5 @@ auto mara::to_string(const rational_number_t& value)
 namespace mara
 {
     inline rational_number_t operator+(int a, const rational_number_t& b) { return  b + a; }
-    inline rational_number_t operator-(int a, const rational_number_t& b) { return -b + a; }
+    inline rational_number_t operator-(int a, const rational_number_t& b) { return rational_number_t(a) - b; }
 }
-- 
2.43.0

