From 4cd9f4543fc4efb2207086932fb9902ccf29739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 01/38] fix: list and list-view arrays apply the array offset
 in elements, not in bytes

---
 include/sparrow/layout/list_layout/list_array.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index d1fda9f..4827362 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -562,9 +562,8 @@ namespace sparrow
     template <bool BIG>
     auto list_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     /***************************************
@@ -656,17 +655,15 @@ namespace sparrow
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_sizes() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
 #ifdef __GNUC__
-- 
2.43.0


From adce42772c631d83939e74a0080851f16e83a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 02/38] fix: fixed-size list arrays honour the array offset

---
 include/sparrow/layout/list_layout/list_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index 4827362..c85507e 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -690,7 +690,7 @@ namespace sparrow
 
     inline auto fixed_sized_list_array::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
     {
-        const auto offset = i * m_list_size;
+        const auto offset = (i + this->get_arrow_proxy().offset()) * m_list_size;
         return std::make_pair(offset, offset + m_list_size);
     }
 
-- 
2.43.0


From 7891f2d83035fcb7b7c4a0bd3f352ef13c29e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 03/38] fix: struct arrays honour the array offset

---
 include/sparrow/layout/struct_layout/struct_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 97067e5..618d0d9 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -228,12 +228,12 @@ namespace sparrow
 
     inline auto struct_array::value(size_type i) -> inner_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::value(size_type i) const -> inner_const_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::make_children() -> children_type
-- 
2.43.0


From c43067f0d6ed57eb4a4abe8dd79659e62a82c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 04/38] fix: union arrays apply the array offset to the type
 ids and the dense offsets

---
 include/sparrow/layout/union_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 0bd32b9..acf0a1c 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -325,7 +325,7 @@ namespace sparrow
     template <class DERIVED>
     auto union_array_crtp_base<DERIVED>::operator[](std::size_t i) const -> value_type
     {   
-        const auto type_id = static_cast<std::size_t>(p_type_ids[i]);
+        const auto type_id = static_cast<std::size_t>(p_type_ids[i + m_proxy.offset()]);
         const auto child_index = m_type_id_map[type_id];
         const auto offset = this->derived_cast().element_offset(i);
         return array_element(*m_children[child_index], static_cast<std::size_t>(offset));
@@ -502,7 +502,7 @@ namespace sparrow
 
     inline std::size_t dense_union_array::element_offset(std::size_t i) const
     {
-        return static_cast<std::size_t>(p_offsets[i]) + m_proxy.offset();
+        return static_cast<std::size_t>(p_offsets[i + m_proxy.offset()]);
     }
 
     /*************************************
-- 
2.43.0


From 0b4b8f60cb43fba39664e2fc31ec14e2984444fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 05/38] fix: binary view arrays honour the array offset

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index a39c201..634bf76 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -308,7 +308,8 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(i < this->size());
 
         constexpr std::size_t element_size = 16;
-        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (i * element_size);
+        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>()
+                        + ((i + this->get_arrow_proxy().offset()) * element_size);
 
         auto length = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr));
         using char_or_byte = typename inner_const_reference::value_type;
-- 
2.43.0


From c0a05589f7e4f8a4184a2e6798a3830e07310975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 06/38] fix: binary view buffer indices count the variadic
 buffers only

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 634bf76..cef8d63 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -220,7 +220,7 @@ namespace sparrow
                 std::ranges::copy(prefix_sub_range, length_ptr + PREFIX_OFFSET);
 
                 // write the buffer index
-                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = static_cast<std::int32_t>(FIRST_VAR_DATA_BUFFER_INDEX);
+                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = 0;
 
                 // write the buffer offset
                 *reinterpret_cast<std::int32_t*>(length_ptr + BUFFER_OFFSET_OFFSET) = static_cast<std::int32_t>(long_string_storage_size);
@@ -327,7 +327,7 @@ namespace sparrow
             constexpr std::ptrdiff_t buffer_offset_offset = 12;
             auto buffer_index = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_index_offset));
             auto buffer_offset = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_offset_offset));
-            auto buffer = this->get_arrow_proxy().buffers()[buffer_index].template data<const char_or_byte>();
+            auto buffer = this->get_arrow_proxy().buffers()[FIRST_VAR_DATA_BUFFER_INDEX + buffer_index].template data<const char_or_byte>();
             return inner_const_reference(buffer + buffer_offset,  length);
         }
 
-- 
2.43.0


From 631a87e95404333b9ec0ccbfe2c438abaf251d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 07/38] fix: run-end encoded arrays honour the array offset and
 end() does not read past the run ends

---
 .../run_end_encoded_array.hpp                 | 22 +++++++++++++++++--
 .../run_end_encoded_iterator.hpp              |  2 +-
 src/run_encoded_array.cpp                     | 12 ++++++----
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 4f52832..572c505 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -98,6 +98,8 @@ namespace sparrow
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
         SPARROW_API std::uint64_t get_run_length(std::uint64_t run_index) const;
+        SPARROW_API std::uint64_t get_run_index(std::uint64_t i) const;
+        SPARROW_API std::uint64_t get_runs_left(std::uint64_t i, std::uint64_t run_index) const;
 
         [[nodiscard]] arrow_proxy& get_arrow_proxy();
         [[nodiscard]] const arrow_proxy& get_arrow_proxy() const;
@@ -174,6 +176,22 @@ namespace sparrow
         return ret;
     }
     
+    inline auto run_end_encoded_array::get_runs_left(std::uint64_t i, std::uint64_t run_index) const -> std::uint64_t
+    {
+        // nothing is left at the end
+        if (i >= size())
+        {
+            return 0;
+        }
+        return std::visit(
+            [i, run_index, this](auto&& acc_lengths_ptr) -> std::uint64_t
+            {
+                return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]) - (i + m_proxy.offset());
+            },
+            m_acc_lengths
+        );
+    }
+
     inline arrow_proxy& run_end_encoded_array::get_arrow_proxy()
     {
         return m_proxy;
@@ -191,7 +209,7 @@ namespace sparrow
 
     inline auto run_end_encoded_array::begin() -> iterator
     {
-        return iterator(this, 0, 0);
+        return iterator(this, 0, get_run_index(0));
     }
 
     inline auto run_end_encoded_array::end() -> iterator
@@ -211,7 +229,7 @@ namespace sparrow
 
     inline auto run_end_encoded_array::cbegin() const -> const_iterator
     {
-        return const_iterator(this, 0, 0);
+        return const_iterator(this, 0, get_run_index(0));
     }
 
     inline auto run_end_encoded_array::cend() const -> const_iterator
diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
index 8faafb8..1802c50 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
@@ -66,7 +66,7 @@ namespace sparrow
         p_encoded_values_array(array_ptr->p_encoded_values_array.get()),
         m_index(index), 
         m_run_end_index(run_end_index),
-        m_runs_left(array_ptr->get_run_length(index))
+        m_runs_left(array_ptr->get_runs_left(index, run_end_index))
     {
     }
 
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index a5d5608..c97fb31 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -34,18 +34,22 @@ namespace sparrow
     }
 
     auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
+    {
+        return array_element(*p_encoded_values_array, static_cast<std::size_t>(get_run_index(i)));
+    }
+
+    std::uint64_t run_end_encoded_array::get_run_index(std::uint64_t i) const
     {
         return visit(
-            [i, this](const auto& acc_lengths_ptr) -> array_traits::const_reference
+            [i, this](const auto& acc_lengths_ptr) -> std::uint64_t
             {
                 const auto it = std::upper_bound(
                     acc_lengths_ptr,
                     acc_lengths_ptr + this->m_encoded_length,
-                    i
+                    i + m_proxy.offset()
                 );
                 // std::lower_bound returns an iterator, so we need to convert it to an index
-                const auto index = static_cast<std::size_t>(std::distance(acc_lengths_ptr, it));
-                return array_element(*p_encoded_values_array, static_cast<std::size_t>(index));
+                return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
             m_acc_lengths
         );
-- 
2.43.0


From 1e634d1386efccc59765a01236f047e66711601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 08/38] fix: set_buffer refreshes the buffer views before
 counting the nulls

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 3760662..facb317 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -500,8 +500,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, buffer);
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     void arrow_proxy::set_buffer(size_t index, buffer<uint8_t>&& buffer)
@@ -512,8 +512,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, std::move(buffer));
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     [[nodiscard]] const std::vector<arrow_proxy>& arrow_proxy::children() const
-- 
2.43.0


From 1d3e5a9afce943bc48876dae253663e51047238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 09/38] fix: inserting into the validity bitmap honours the
 array offset and refreshes the buffer views

---
 include/sparrow/arrow_array_schema_proxy.hpp | 5 +++--
 src/arrow_array_schema_proxy.cpp             | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 948293f..d2c3613 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -477,8 +477,9 @@ namespace sparrow
         }
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto bitmap = get_non_owning_dynamic_bitset();
-        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), range.begin(), range.end());
-        return static_cast<size_t>(std::distance(bitmap.begin(), it));
+        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), range.begin(), range.end());
+        update_buffers();
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
 }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index facb317..b56804b 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -762,9 +762,9 @@ namespace sparrow
             return index;
         }
         auto bitmap = get_non_owning_dynamic_bitset();
-        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), count, value);
+        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), count, value);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     size_t arrow_proxy::erase_bitmap(size_t index, size_t count)
@@ -782,7 +782,7 @@ namespace sparrow
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     void arrow_proxy::push_back_bitmap(bool value)
-- 
2.43.0


From 31d612186a78a96a8d3b43b3833e3f647cb23e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 10/38] fix: slicing a slice is relative to the slice, not to
 the underlying buffers

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index b56804b..b0049b8 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -815,7 +815,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(start <= end);
         arrow_proxy copy = *this;
-        copy.set_offset(start);
+        copy.set_offset(offset() + start);
         copy.set_length(end - start);
         return copy;
     }
@@ -826,7 +826,7 @@ namespace sparrow
         ArrowSchema as = schema();
         as.release = empty_release_arrow_schema;
         ArrowArray ar = array();
-        ar.offset = static_cast<int64_t>(start);
+        ar.offset = static_cast<int64_t>(offset() + start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
         return arrow_proxy{std::move(ar), std::move(as)};
-- 
2.43.0


From f0df60836c7a45384a5442a83e7ad6944862bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 11/38] fix: the null count of an array does not include the
 elements before its offset

---
 src/arrow_array_schema_proxy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index b0049b8..e1ab391 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -682,7 +682,8 @@ namespace sparrow
         {
             const auto& validity_buffer = buffers().front();
             const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const auto null_count = bitmap.null_count();
+            const dynamic_bitset_view<const std::uint8_t> skipped(validity_buffer.data(), offset());
+            const auto null_count = bitmap.null_count() - skipped.null_count();
             set_null_count(static_cast<int64_t>(null_count));
         }
         
-- 
2.43.0


From 724939806197966a917aabf2b12c8eef1da2fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 12/38] fix: a slice view does not report the null count of the
 whole array

---
 src/arrow_array_schema_proxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index e1ab391..41929c4 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -829,6 +829,10 @@ namespace sparrow
         ArrowArray ar = array();
         ar.offset = static_cast<int64_t>(offset() + start);
         ar.length = static_cast<int64_t>(end - start);
+        if (ar.null_count != 0)
+        {
+            ar.null_count = -1;  // not computed for the slice
+        }
         ar.release = empty_release_arrow_array;
         return arrow_proxy{std::move(ar), std::move(as)};
     }
-- 
2.43.0


From 1b56d85baf7eca877165abac9f5232d136d99d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 13/38] fix: the last buffer of a binary view array holds one
 64-bit size per variadic buffer

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index fa9e6b9..8c2bb06 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -187,7 +187,7 @@ namespace sparrow
                 {
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
-                buffers.back() = make_buffer(buffer_count -1 , size * 4);
+                buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
         }
         // To avoid stupid warning "control reaches end of non-void function"
-- 
2.43.0


From 6ef647e13acc39d77b9c766c3166d65b154be5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 14/38] fix: the width of a decimal is read from its format

---
 src/arrow_interface/arrow_array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 8c2bb06..a3ba483 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -94,7 +94,7 @@ namespace sparrow
         else
         {
             // get the position of second comma
-            const auto second_comma_ptr = std::strchr(format, ',');
+            const auto second_comma_ptr = std::strchr(std::strchr(format, ',') + 1, ',');
             if(!all_digits(std::string_view(second_comma_ptr + 1)))
             {
                 throw std::runtime_error("Invalid format for decimal");
@@ -172,7 +172,7 @@ namespace sparrow
             case data_type::TIMESTAMP:
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::DECIMAL:
-                return {make_valid_buffer(), make_buffer(1, size * 16)}; 
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
             case data_type::FIXED_WIDTH_BINARY:
                 return {make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))};
             case data_type::STRING_VIEW:
-- 
2.43.0


From eeb2acdb75eafd3c28921a1bbc0dd5667fd341ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 15/38] fix: the end of a bitset whose size is a multiple of
 the block size is past its last bit

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 074b537..71a67fe 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -276,8 +276,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::end() -> iterator
     {
-        block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return iterator(this, block, size() % s_bits_per_block);
+        return iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
@@ -305,8 +304,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cend() const -> const_iterator
     {
-        const block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return const_iterator(this, block, size() % s_bits_per_block);
+        return const_iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
-- 
2.43.0


From 991783837dd00197f23552b0bcec9e8906df8381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 16/38] fix: decrementing a bitset iterator across blocks goes
 to the last bit of the previous block

---
 include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 0547083..65f6d28 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -126,7 +126,7 @@ namespace sparrow
         if (is_first_bit_of_block(m_index))
         {
             --p_block;
-            m_index = sizeof(block_type);
+            m_index = bitset_type::s_bits_per_block - 1;
         }
         else
         {
-- 
2.43.0


From 6447fa6afa5a9aae03cf42abd4f344be16200f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 17/38] fix: the unused bits of a bitset are those of the block
 its size ends in

---
 include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 71a67fe..ebe5acf 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -479,7 +479,7 @@ namespace sparrow
         const size_type extra_bits = count_extra_bits();
         if (extra_bits != 0)
         {
-            buffer().back() &= block_type(~(~block_type(0) << extra_bits));
+            buffer().data()[block_index(size())] &= block_type(~(~block_type(0) << extra_bits));
         }
     }
 
@@ -515,7 +515,7 @@ namespace sparrow
             const size_type extra_bits = count_extra_bits();
             if (extra_bits > 0)
             {
-                buffer().data()[old_block_count - 1] |= static_cast<block_type>(value << extra_bits);
+                buffer().data()[block_index(m_size)] |= static_cast<block_type>(value << extra_bits);
             }
         }
 
-- 
2.43.0


From 1513f27451e715e58844080a543411229adf5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 18/38] fix: inserting nothing at the front of a bitset
 terminates

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index ebe5acf..59f6e5c 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -557,9 +557,9 @@ namespace sparrow
 
         resize(new_size);
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = old_size + count; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
@@ -589,9 +589,9 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = old_size + count; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
-- 
2.43.0


From e5e0c3cd7ffdcfaec3738c3b2629ba7b878b36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 19/38] fix: building a bitset view does not clear the bits
 that follow it in the shared buffer

---
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 59f6e5c..50f5ba3 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -54,6 +54,10 @@ namespace sparrow
         using iterator = bitset_iterator<self_type, false>;
         using const_iterator = bitset_iterator<self_type, true>;
 
+        // A view must not write to the blocks it refers to when it is built: the bits
+        // after its last one may belong to another view of the same buffer.
+        static constexpr bool is_resizable = requires(storage_type_without_cvrefpointer& b) { b.resize(size_type(0)); };
+
         constexpr size_type size() const noexcept;
         [[nodiscard]] constexpr bool empty() const noexcept;
         constexpr size_type null_count() const noexcept;
@@ -382,7 +386,7 @@ namespace sparrow
         , m_size(size)
         , m_null_count(m_size - count_non_null())
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (is_resizable)
         {
             zero_unused_bits();
         }
@@ -395,9 +399,12 @@ namespace sparrow
         , m_size(size)
         , m_null_count(null_count)
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (is_resizable)
         {
             zero_unused_bits();
+        }
+        if constexpr (!std::is_const_v<block_type>)
+        {
             SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
         }
     }
-- 
2.43.0


From ec071f5318c28aa4b608b537ef9f574446c80908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 20/38] fix: let the base classes and iterators of string view
 arrays read their values

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index cef8d63..e4643c6 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -165,6 +165,9 @@ namespace sparrow
 
         friend base_type;
         friend base_type::base_type;
+        friend base_type::base_type::base_type;
+        friend class detail::layout_value_functor<self_type, inner_value_type>;
+        friend class detail::layout_value_functor<const self_type, inner_value_type>;
 
     };
 
@@ -339,7 +342,7 @@ namespace sparrow
     template <class T>
     auto variable_size_binary_view_array_impl<T>::value_begin() -> value_iterator
     {
-        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(), 0);
+        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(this), 0);
     }
 
     template <class T>
-- 
2.43.0


From 1ab6afeafa25c231b134c9cf64b0eef9fc216402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 21/38] fix: the copy of an array without validity buffer has
 no validity buffer

---
 src/arrow_interface/arrow_array.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index a3ba483..cf8af08 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -232,7 +232,14 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(buffers.size() == static_cast<std::size_t>(source_array.n_buffers));
         for (const auto& buffer : buffers)
         {
-            buffers_copy.emplace_back(buffer);
+            if (buffer.data() == nullptr)
+            {
+                buffers_copy.emplace_back();  // an absent buffer remains absent
+            }
+            else
+            {
+                buffers_copy.emplace_back(buffer);
+            }
         }
         target.private_data = new arrow_array_private_data(
             std::move(buffers_copy),
-- 
2.43.0


From 0bbce48a9e531842cdb1a184d76123ab355cf7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 22/38] fix: releasing a structure frees its dictionary and the
 children already released by a consumer

---
 .../arrow_array_schema_utils.hpp              | 36 ++++++++++++++-----
 src/arrow_array_schema_proxy.cpp              | 36 ++++++++++++++-----
 2 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index dd095af..fb2b94f 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -28,8 +28,8 @@
 namespace sparrow
 {
     /*
-     * Class for tracking ownership of children of an `ArrowArray` or
-     * an `ArrowSchema` allocated by sparrow.
+     * Class for tracking ownership of children and dictionary of an `ArrowArray`
+     * or an `ArrowSchema` allocated by sparrow.
      */
     class children_ownership
     {
@@ -41,6 +41,9 @@ namespace sparrow
 
         constexpr void resize_children(std::size_t size);
 
+        constexpr void set_dictionary_ownership(bool ownership) noexcept;
+        [[nodiscard]] constexpr bool has_dictionary_ownership() const noexcept;
+
     protected:
 
         constexpr explicit children_ownership(std::size_t size = 0);
@@ -49,6 +52,7 @@ namespace sparrow
 
         using children_owner_list = std::vector<bool>;
         children_owner_list m_children = {};
+        bool m_dictionary = true;
     };
 
     /**
@@ -173,6 +177,16 @@ namespace sparrow
         m_children.resize(size);
     }
 
+    constexpr void children_ownership::set_dictionary_ownership(bool ownership) noexcept
+    {
+        m_dictionary = ownership;
+    }
+
+    [[nodiscard]] constexpr bool children_ownership::has_dictionary_ownership() const noexcept
+    {
+        return m_dictionary;
+    }
+
     template <class T>
     requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
     void release_common_arrow(T& t)
@@ -188,6 +202,12 @@ namespace sparrow
             {
                 t.dictionary->release(t.dictionary);
             }
+            SPARROW_ASSERT_TRUE(t.private_data != nullptr);
+            if (static_cast<const children_ownership*>(t.private_data)->has_dictionary_ownership())
+            {
+                delete t.dictionary;
+            }
+            t.dictionary = nullptr;
         }
 
         if (t.children)
@@ -197,16 +217,16 @@ namespace sparrow
                 T* child = t.children[i];
                 if (child)
                 {
-                    if (child->release)
+                    SPARROW_ASSERT_TRUE(t.private_data != nullptr);
+                    children_ownership* own = static_cast<children_ownership*>(t.private_data);
+                    if (own->has_child_ownership(static_cast<std::size_t>(i)))
                     {
-                        SPARROW_ASSERT_TRUE(t.private_data != nullptr);
-                        children_ownership* own = static_cast<children_ownership*>(t.private_data);
-                        if (own->has_child_ownership(static_cast<std::size_t>(i)))
+                        if (child->release)
                         {
                             child->release(child);
-                            delete child;
-                            child = nullptr;
                         }
+                        delete child;
+                        child = nullptr;
                     }
                 }
             }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 41929c4..69d2019 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -28,6 +28,28 @@ namespace sparrow
 {
     static constexpr size_t bitmap_buffer_index = 0;
 
+    namespace
+    {
+        // Releases a child or a dictionary that is about to be detached from its parent, and
+        // deletes its structure if the parent owns it.
+        template <class T>
+        void release_child(T* child, bool owned)
+        {
+            if (child == nullptr)
+            {
+                return;
+            }
+            if (child->release != nullptr)
+            {
+                child->release(child);
+            }
+            if (owned)
+            {
+                delete child;
+            }
+        }
+    }
+
     arrow_proxy arrow_proxy::view() const
     {
         ArrowArray* array_ptr = const_cast<ArrowArray*>(&array());
@@ -590,17 +612,15 @@ namespace sparrow
             );
         }
 
-        if (array().dictionary != nullptr)
-        {
-            array().dictionary->release(array().dictionary);
-        }
-        if (schema().dictionary != nullptr)
-        {
-            schema().dictionary->release(schema().dictionary);
-        }
+        auto* array_private_data = get_array_private_data();
+        auto* schema_private_data = get_schema_private_data();
+        release_child(array().dictionary, array_private_data->has_dictionary_ownership());
+        release_child(schema().dictionary, schema_private_data->has_dictionary_ownership());
 
         array().dictionary = array_dictionary;
         schema().dictionary = schema_dictionary;
+        array_private_data->set_dictionary_ownership(false);
+        schema_private_data->set_dictionary_ownership(false);
         update_dictionary();
     }
 
-- 
2.43.0


From cda310207a90d2544a507155b71e462a9d31d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 23/38] fix: a child detached from a structure is freed

---
 include/sparrow/arrow_array_schema_proxy.hpp |  1 +
 src/arrow_array_schema_proxy.cpp             | 29 +++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index d2c3613..19949d2 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -398,6 +398,7 @@ namespace sparrow
 
         [[nodiscard]] bool empty() const;
         SPARROW_API void resize_children(size_t children_count);
+        void release_owned_child(size_t index);
 
         [[nodiscard]] SPARROW_API non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 69d2019..dc9c496 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -454,11 +454,11 @@ namespace sparrow
         {
             if (schema_private_data->has_child_ownership(i))
             {
-                schema().children[i]->release(schema().children[i]);
+                release_child(schema().children[i], true);
             }
             if (array_private_data->has_child_ownership(i))
             {
-                array().children[i]->release(array().children[i]);
+                release_child(array().children[i], true);
             }
         }
 
@@ -548,6 +548,24 @@ namespace sparrow
         return m_children;
     }
 
+    void arrow_proxy::release_owned_child(size_t index)
+    {
+        auto* array_private_data = get_array_private_data();
+        if (array_private_data->has_child_ownership(index))
+        {
+            release_child(array().children[index], true);
+            array().children[index] = nullptr;
+            array_private_data->set_child_ownership(index, false);
+        }
+        auto* schema_private_data = get_schema_private_data();
+        if (schema_private_data->has_child_ownership(index))
+        {
+            release_child(schema().children[index], true);
+            schema().children[index] = nullptr;
+            schema_private_data->set_child_ownership(index, false);
+        }
+    }
+
     void arrow_proxy::set_child(size_t index, ArrowArray* child_array, ArrowSchema* child_schema)
     {
         SPARROW_ASSERT_TRUE(std::cmp_less(index, n_children()));
@@ -559,9 +577,11 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        arrow_proxy child(child_array, child_schema);
+        release_owned_child(index);
         array().children[index] = child_array;
         schema().children[index] = child_schema;
-        m_children[index] = arrow_proxy(child_array, child_schema);
+        m_children[index] = std::move(child);
         get_array_private_data()->set_child_ownership(index, false);
         get_schema_private_data()->set_child_ownership(index, false);
     }
@@ -575,11 +595,12 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_owned_child(index);
         array().children[index] = new ArrowArray(std::move(child_array));
         schema().children[index] = new ArrowSchema(std::move(child_schema));
-        m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
         get_array_private_data()->set_child_ownership(index, true);
         get_schema_private_data()->set_child_ownership(index, true);
+        m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
     }
 
     void arrow_proxy::add_child(ArrowArray* array, ArrowSchema* schema)
-- 
2.43.0


From 3786d97db600f170a3f0cdc99560bc716260eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 24/38] fix: a child adopted by value is no longer the caller's
 to release

---
 src/arrow_array_schema_proxy.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index dc9c496..193487f 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -596,8 +596,10 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
         release_owned_child(index);
-        array().children[index] = new ArrowArray(std::move(child_array));
-        schema().children[index] = new ArrowSchema(std::move(child_schema));
+        array().children[index] = new ArrowArray(child_array);
+        child_array = {};
+        schema().children[index] = new ArrowSchema(child_schema);
+        child_schema = {};
         get_array_private_data()->set_child_ownership(index, true);
         get_schema_private_data()->set_child_ownership(index, true);
         m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
@@ -612,7 +614,9 @@ namespace sparrow
     void arrow_proxy::add_child(ArrowArray&& array, ArrowSchema&& schema)
     {
         using value_type = arrow_array_and_schema;
-        add_children(std::ranges::single_view(value_type{std::move(array), std::move(schema)}));
+        add_children(std::ranges::single_view(value_type{array, schema}));
+        array = {};
+        schema = {};
     }
 
     [[nodiscard]] const std::unique_ptr<arrow_proxy>& arrow_proxy::dictionary() const
-- 
2.43.0


From e88286a38f4021cdc4834d15368d0c2379cf0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 25/38] fix: popping the last element of a buffer compiles

---
 include/sparrow/buffer/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index a91b47b..cf36fa6 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -910,7 +910,7 @@ namespace sparrow
     constexpr void buffer<T>::pop_back()
     {
         SPARROW_ASSERT_FALSE(empty());
-        destroy(get_allocator(), get_data().p_end - 1);
+        alloc_traits::destroy(get_allocator(), get_data().p_end - 1);
         --get_data().p_end;
     }
 
-- 
2.43.0


From 0d5432d6321164adac94ebd25d9813253b562f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 26/38] fix: moving a buffer with an allocator compiles

---
 include/sparrow/buffer/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index cf36fa6..9ba276b 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -495,7 +495,7 @@ namespace sparrow
     {
         if (rhs.get_allocator() == get_allocator())
         {
-            get_data() = std::move(rhs.m_data);
+            get_data() = std::move(rhs.get_data());
         }
         else if (!rhs.empty())
         {
-- 
2.43.0


From 6caf51e35c99009c2cb04ae5dd640810b972117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 27/38] fix: a buffer of n copies of a value can be made from
 two integers of the same type

---
 include/sparrow/buffer/buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 9ba276b..93904e9 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -152,7 +152,7 @@ namespace sparrow
         template <allocator A = allocator_type>
         constexpr buffer(std::initializer_list<value_type> init, const A& a = A());
 
-        template <class It, allocator A = allocator_type>
+        template <std::input_iterator It, allocator A = allocator_type>
         constexpr buffer(It first, It last, const A& a = A());
 
         template <std::ranges::input_range Range, allocator A = allocator_type>
@@ -446,7 +446,7 @@ namespace sparrow
     }
 
     template <class T>
-    template <class It, allocator A>
+    template <std::input_iterator It, allocator A>
     constexpr buffer<T>::buffer(It first, It last, const A& a)
         : base_type(check_init_length(static_cast<size_type>(std::distance(first, last)), a), a)
     {
-- 
2.43.0


From 5960cb31d1c12790a9659deb82243a1b94f1f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 28/38] fix: taking a subrange of a buffer view of mutable
 elements compiles

---
 include/sparrow/buffer/buffer_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer_view.hpp b/include/sparrow/buffer/buffer_view.hpp
index 69535b5..588c95f 100644
--- a/include/sparrow/buffer/buffer_view.hpp
+++ b/include/sparrow/buffer/buffer_view.hpp
@@ -333,7 +333,8 @@ namespace sparrow
     buffer_view<T> buffer_view<T>::subrange(const_iterator first, const_iterator last) const
     {
         SPARROW_ASSERT_TRUE(first >= begin() && last <= end());
-        return buffer_view<T>(first, last);
+        SPARROW_ASSERT_TRUE(first <= last);
+        return subrange(static_cast<size_type>(first - begin()), static_cast<size_type>(last - first));
     }
 
     template <class T>
-- 
2.43.0


From 8ace8190257b2afd8fc4acfc5f6f2f8e52b35cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 29/38] fix: an element of a buffer can be pushed, inserted and
 resized with into the same buffer

---
 include/sparrow/buffer/buffer.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 93904e9..50e5785 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -785,10 +785,11 @@ namespace sparrow
         const difference_type offset = std::distance(cbegin(), pos);
         if (count != 0)
         {
+            const value_type copy(value);  // value may be an element of this buffer
             reserve_with_growth_factor( size() + count);
             const iterator it = std::next(begin(), offset);
             std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
-            std::fill_n(it, count, value);
+            std::fill_n(it, count, copy);
             get_data().p_end += count;
         }
         return std::next(begin(), offset);
@@ -857,17 +858,19 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type offset = std::distance(cbegin(), pos);
+        // the arguments may designate an element of this buffer
+        value_type value(std::forward<Args>(args)...);
         reserve_with_growth_factor(size() + 1);
         pointer p = get_data().p_begin + offset;
         if (p != get_data().p_end)
         {
             alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
             std::move_backward(p, get_data().p_end - 1, get_data().p_end);
-            alloc_traits::construct(get_allocator(), p, std::forward<Args>(args)...);
+            *p = std::move(value);
         }
         else
         {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::forward<Args>(args)...);
+            alloc_traits::construct(get_allocator(), get_data().p_end, std::move(value));
         }
         ++get_data().p_end;
         return iterator(p);
@@ -931,7 +934,7 @@ namespace sparrow
     {
         resize_impl(
             new_size,
-            [this, &value](size_type nb_init)
+            [this, value](size_type nb_init)
             {
                 get_data().p_end = fill_initialize(get_data().p_end, nb_init, value, get_allocator());
             }
-- 
2.43.0


From c164216c5d9e081116de6501c7191a87b02cfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 30/38] fix: wrapping a structure made by the library does not
 rewrite it

---
 src/arrow_array_schema_proxy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 193487f..774db02 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -146,7 +146,8 @@ namespace sparrow
         }
 
         validate_array_and_schema();
-        update_buffers();
+        // Wrapping a structure only reads it, it may have other readers
+        m_buffers = get_arrow_array_buffers(this->array(), this->schema());
         update_children();
         update_dictionary();
     }
-- 
2.43.0


From a509cb26771460d40fc047bde642e3fd7d3e0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 31/38] fix: a null of a dictionary encoded array has the type
 of its own dictionary

---
 .../layout/dictionary_encoded_array.hpp       | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index e14fd46..ed30bb8 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -152,7 +152,7 @@ namespace sparrow
         using keys_layout = primitive_array<IT>;
         using values_layout = cloning_ptr<array_wrapper>;
 
-        const inner_value_type& dummy_inner_value() const;
+        inner_value_type dummy_inner_value() const;
         //inner_const_reference dummy_inner_const_reference() const;
         const_reference dummy_const_reference() const;
 
@@ -326,10 +326,9 @@ namespace sparrow
     }
 
     template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> const inner_value_type&
+    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> inner_value_type
     {
-        static const inner_value_type instance = array_default_element_value(*p_values_layout);
-        return instance;
+        return array_default_element_value(*p_values_layout);
     }
 
     /*template <std::integral IT>
@@ -343,13 +342,14 @@ namespace sparrow
     template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_const_reference() const -> const_reference
     {
-        static const const_reference instance =
-            std::visit([](const auto& val) -> const_reference {
-                using inner_ref = typename arrow_traits<std::decay_t<decltype(val)>>::const_reference;
-                return nullable<inner_ref>(inner_ref(val), false);
-            },
-            dummy_inner_value());
-        return instance;
+        return std::visit([](const auto& val) -> const_reference {
+            using value_t = std::decay_t<decltype(val)>;
+            using inner_ref = typename arrow_traits<value_t>::const_reference;
+            // Depends on the type only, not on the dictionary of the first array that gets here
+            static const value_t instance{};
+            return nullable<inner_ref>(inner_ref(instance), false);
+        },
+        dummy_inner_value());
     }
 
     template <std::integral IT>
-- 
2.43.0


From b14493b0f2b0f8e4ad43ae7b8efe82d2fdcb86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 32/38] fix: nullables can be ordered against nullval

---
 include/sparrow/utils/nullable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 2d90860..041e717 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -732,10 +732,10 @@ namespace sparrow
         return !lhs;
     }
 
-    template <class T, class B>
+    template <class T, mpl::boolean_like B>
     constexpr std::strong_ordering operator<=>(const nullable<T, B>& lhs, nullval_t) noexcept
     {
-        return lhs <=> false;
+        return lhs.has_value() <=> false;
     }
     
     template <class T, class B, class U>
-- 
2.43.0


From 2d04dc2bf267bf3b892bb7e9da5601a997e1bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 33/38] fix: count the set bits of a bitmap in its size type

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 50f5ba3..28d1f90 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -451,21 +451,21 @@ namespace sparrow
             return 0u;
         }
 
-        int res = 0;
+        size_type res = 0;
         size_t full_blocks = m_size / s_bits_per_block;
         for (size_t i = 0; i < full_blocks; ++i)
         {
-            res += std::popcount(buffer().data()[i]);
+            res += static_cast<size_type>(std::popcount(buffer().data()[i]));
         }
         if (full_blocks != buffer().size())
         {
             const size_t bits_count = m_size % s_bits_per_block;
             const block_type mask = ~block_type(~block_type(0) << bits_count);
             const block_type block = buffer().data()[full_blocks] & mask;
-            res += std::popcount(block);
+            res += static_cast<size_type>(std::popcount(block));
         }
 
-        return static_cast<size_t>(res);
+        return res;
     }
 
     template <typename B>
-- 
2.43.0


From 4dd0419f4db2aa97d0aaa652f3cf8fb8e85bb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 34/38] fix: inserting or resizing with an element of the
 adapted buffer reads it first

---
 include/sparrow/buffer/buffer_adaptor.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index d4d46a8..fc0069d 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -460,8 +460,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type copy(value);  // value may be an element of this buffer
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        operator[](static_cast<size_type>(index)) = value;
+        operator[](static_cast<size_type>(index)) = copy;
         return std::next(begin(), index);
     }
 
@@ -475,10 +476,11 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type copy(value);  // value may be an element of this buffer
         m_buffer.insert(buffer_pos, count * m_to_from_size_ratio, 0);
         for (size_type i = 0; i < count; ++i)
         {
-            data()[static_cast<size_t>(index) + i] = value;
+            data()[static_cast<size_t>(index) + i] = copy;
         }
         return std::next(begin(), index);
     }
@@ -521,8 +523,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type value(std::forward<Args>(args)...);  // the arguments may designate an element of this buffer
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        data()[index] = value_type(std::forward<Args>(args)...);
+        data()[index] = value;
         return std::next(begin(), index);
     }
 
@@ -607,13 +610,14 @@ namespace sparrow
         requires(not is_const)
     {
         const size_type original_size = size();
+        const value_type copy(value);  // value may be an element of this buffer
         const auto new_size_for_buffer = static_cast<size_type>(
             static_cast<double>(new_size) / m_from_to_size_ratio
         );
         m_buffer.resize(new_size_for_buffer, 0);
         for (size_type i = original_size; i < new_size; ++i)
         {
-            operator[](i) = value;
+            operator[](i) = copy;
         }
     }
 
-- 
2.43.0


From 251e39ef9741ea12770fb939287d20da68efb275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 35/38] fix: run-end encoded arrays accept the signed run ends
 of the Arrow format

---
 .../run_end_encoded_layout/run_end_encoded_array.hpp     | 9 ++++++++-
 src/run_encoded_array.cpp                                | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 572c505..a92b33b 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -93,7 +93,14 @@ namespace sparrow
             array && encoded_values
         ) -> arrow_proxy;
 
-        using acc_length_ptr_variant_type = std::variant< const std::uint16_t*, const std::uint32_t*,const std::uint64_t*> ;
+        // The Arrow format has signed run ends
+        using acc_length_ptr_variant_type = std::variant<
+            const std::uint16_t*,
+            const std::uint32_t*,
+            const std::uint64_t*,
+            const std::int16_t*,
+            const std::int32_t*,
+            const std::int64_t*>;
 
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index c97fb31..09236ab 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -11,7 +11,10 @@ namespace sparrow
              mpl::is_type_instance_of_v<T, primitive_array> && (
              std::same_as<typename T::inner_value_type, std::uint16_t> ||
              std::same_as<typename T::inner_value_type, std::uint32_t> ||
-             std::same_as<typename T::inner_value_type, std::uint64_t>);
+             std::same_as<typename T::inner_value_type, std::uint64_t> ||
+             std::same_as<typename T::inner_value_type, std::int16_t> ||
+             std::same_as<typename T::inner_value_type, std::int32_t> ||
+             std::same_as<typename T::inner_value_type, std::int64_t>);
     
     auto run_end_encoded_array::get_acc_lengths_ptr(const array_wrapper& ar) -> acc_length_ptr_variant_type
     {
-- 
2.43.0


From 6cc6a5e9ba156b4922d01c114261d635e98914c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 36/38] fix: a run-end encoded array of no runs does not read a
 run end

---
 src/run_encoded_array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index 09236ab..1a1440f 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -68,6 +68,10 @@ namespace sparrow
         // get the raw null count
         std::uint64_t raw_null_count = detail::array_access::get_arrow_proxy(acc_lengths_arr).null_count();
         auto raw_size = acc_lengths_arr.size();
+        if (raw_size == 0)
+        {
+            return {0, 0};
+        }
         // visit the acc_lengths array
         std::int64_t length = 0;
         std::int64_t null_count = 0;
-- 
2.43.0


From 71d5432c16da4c130633bdeabc2a86f47497a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 37/38] fix: growing or shrinking an array without validity
 bitmap keeps its elements valid

---
 src/arrow_array_schema_proxy.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 774db02..95c5748 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -21,6 +21,7 @@
 #include "sparrow/arrow_interface/arrow_flag_utils.hpp"
 #include "sparrow/arrow_interface/arrow_schema.hpp"
 #include "sparrow/arrow_interface/arrow_schema/private_data.hpp"
+#include "sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"
 #include "sparrow/buffer/dynamic_bitset/dynamic_bitset_view.hpp"
 #include "sparrow/utils/contracts.hpp"
 
@@ -777,6 +778,11 @@ namespace sparrow
         auto private_data = static_cast<arrow_array_private_data*>(array().private_data);
         auto& bitmap_buffer = private_data->buffers()[bitmap_buffer_index];
         const size_t current_size = length() + offset();
+        if (bitmap_buffer.data() == nullptr)
+        {
+            // Without a bitmap all the elements are valid
+            bitmap_buffer = dynamic_bitset<uint8_t>(current_size, true).extract_storage();
+        }
         non_owning_dynamic_bitset<uint8_t> bitmap{&bitmap_buffer, current_size};
         return bitmap;
     }
-- 
2.43.0


From 988baccc1b0ae8579e98535d8ab311772d04bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:58 +0000
Subject: [PATCH 38/38] fix: resizing an array with a null appends nulls

---
 include/sparrow/layout/array_bitmap_base.hpp  | 6 +++---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index 3865477..75f0f7a 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -63,7 +63,7 @@ namespace sparrow
             requires is_mutable;
         const bitmap_type& get_bitmap() const;
 
-        void resize_bitmap(size_type new_length)
+        void resize_bitmap(size_type new_length, bool value = true)
             requires is_mutable;
 
         bitmap_iterator insert_bitmap(const_bitmap_iterator pos, bool value, size_type count)
@@ -161,12 +161,12 @@ namespace sparrow
     }
 
     template <class D, bool is_mutable>
-    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length)
+    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length, bool value)
         requires is_mutable
     {
         arrow_proxy& arrow_proxy = this->get_arrow_proxy();
         const size_t new_size = new_length + arrow_proxy.offset();
-        arrow_proxy.resize_bitmap(new_size);
+        arrow_proxy.resize_bitmap(new_size, value);
     }
 
     template <class D, bool is_mutable>
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index d6359fa..1661145 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -254,7 +254,7 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length);
+        derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
         derived.update();
-- 
2.43.0

