From e9c4cd92b057b37c5e61b7d37744735bf4a34365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 01/75] fix: expand with flat list of extents honours the rank
 of the object arrays

The overload that takes the extents of all shapes as one list always used two
extents per object, whatever the rank of the value. For other ranks this
resulted in wrong shapes and in reading past the end of the list.
---
 source/data_model/cxx/source/array/different_shape/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 5e9d295..a0fedac 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -77,7 +77,7 @@ namespace lue::data_model::different_shape {
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape{shapes[shape_idx], shapes[shape_idx + 1]});
+            expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
         _nr_objects += nr_objects;
-- 
2.43.0


From 1c10aef6f133060c0c804f907e8e830153b8553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 02/75] fix: number of elements of a strided hyperslab is the
 product of its counts

---
 source/data_model/hdf5/source/hyperslab.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/hyperslab.cpp b/source/data_model/hdf5/source/hyperslab.cpp
index 7d3952a..ee7ff21 100644
--- a/source/data_model/hdf5/source/hyperslab.cpp
+++ b/source/data_model/hdf5/source/hyperslab.cpp
@@ -151,11 +151,12 @@ namespace lue::hdf5 {
 
         if (!empty())
         {
+            // The stride determines which elements are selected, not how many
             result = 1;
 
             for (std::size_t i = 0; i < nr_dimensions(); ++i)
             {
-                result *= (_stride[i] * _count[i]);
+                result *= _count[i];
             }
         }
 
-- 
2.43.0


From d5e7fa65e010117b821edf031903e60b4045c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 03/75] fix: attribute handles own the datatype they obtain, so
 they can be copied and do not leak

---
 source/data_model/hdf5/source/attribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 5ddef63..48374f4 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -10,7 +10,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier&& id):
 
         _id{std::move(id)},
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
@@ -26,7 +26,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
         _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
-- 
2.43.0


From 873e48e0816bc0aa430ec8517730d9cd0e275949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 04/75] fix: reading a missing attribute raises an exception
 instead of ending the process

---
 .../hdf5/include/lue/hdf5/primary_data_object.hpp   |  2 --
 source/data_model/hdf5/source/attributes.cpp        | 13 ++++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp b/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp
index 3cffd36..8d8800d 100644
--- a/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/primary_data_object.hpp
@@ -42,8 +42,6 @@ namespace lue::hdf5 {
             template<typename T>
             auto attribute(std::string const& name) const -> T
             {
-                assert(contains_attribute(name));
-
                 return _attributes.read<T>(name);
             }
 
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 61099c0..8586f25 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -1,6 +1,7 @@
-#include <utility>
-
 #include "lue/hdf5/attributes.hpp"
+#include <format>
+#include <stdexcept>
+#include <utility>
 
 
 namespace lue::hdf5 {
@@ -42,11 +43,17 @@ namespace lue::hdf5 {
 
     /*!
         @brief      Return the attribute named @a name
+        @exception  std::runtime_error In case the attribute does not exist
     */
     auto Attributes::attribute(std::string const& name) const -> Attribute
     {
         assert(_id.is_valid());
-        assert(exists(name));
+
+        if (!exists(name))
+        {
+            throw std::runtime_error(
+                std::format("Attribute {} does not exist at {}", name, _id.pathname()));
+        }
 
         return {_id, name};
     }
-- 
2.43.0


From f54efe9ca0a1192a1f3fc963aa9df6c705d4600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 05/75] fix: overwriting an attribute by a value of another
 size keeps the whole value, and strings can be empty

---
 .../hdf5/include/lue/hdf5/attribute.hpp       | 61 +++++++++++++++++--
 .../hdf5/include/lue/hdf5/attributes.hpp      | 10 ++-
 source/data_model/hdf5/source/attributes.cpp  | 15 +++++
 3 files changed, 81 insertions(+), 5 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 6c6f486..fddf6df 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -31,12 +31,19 @@ namespace lue::hdf5 {
         inline void read_attribute<std::string>(
             Identifier const& id,
             Datatype const& datatype,
-            [[maybe_unused]] Dataspace const& dataspace,
+            Dataspace const& dataspace,
             std::string& value)
         {
             static_assert(
                 std::is_same_v<std::string::value_type, char>, "expect std::string::value_type to be char");
 
+            if (dataspace.nr_elements() == 0)
+            {
+                // Empty string, see create_attribute
+                value.clear();
+                return;
+            }
+
             assert(datatype.encoding() == H5T_CSET_UTF8);
 
             std::size_t const nr_bytes{datatype.size()};
@@ -61,6 +68,12 @@ namespace lue::hdf5 {
 
             value.resize(nr_elements);
 
+            if (value.empty())
+            {
+                // The HDF5 library does not accept a null buffer
+                return;
+            }
+
             herr_t const status{H5Aread(id, datatype.id(), value.data())};
             assert(value.size() == static_cast<std::size_t>(nr_elements));
 
@@ -100,6 +113,12 @@ namespace lue::hdf5 {
         template<typename T>
         void write_attribute(Identifier const& id, Datatype const& datatype, std::vector<T> const& value)
         {
+            if (value.empty())
+            {
+                // The HDF5 library does not accept a null buffer
+                return;
+            }
+
             herr_t const status{H5Awrite(id, datatype.id(), value.data())};
 
             if (status < 0)
@@ -197,6 +216,36 @@ namespace lue::hdf5 {
     };
 
 
+    namespace detail {
+
+        /*!
+            @brief      Return whether @a attribute has the size that is needed to store @a value
+        */
+        template<typename T>
+            requires(!std::is_base_of_v<std::vector<::hsize_t>, T>)
+        auto has_size_for([[maybe_unused]] Attribute const& attribute, [[maybe_unused]] T const& value) -> bool
+        {
+            return true;
+        }
+
+
+        template<>
+        inline auto has_size_for<std::string>(Attribute const& attribute, std::string const& value) -> bool
+        {
+            return attribute.dataspace().nr_elements() == 0 ? value.empty()
+                                                            : attribute.datatype().size() == value.size();
+        }
+
+
+        template<typename T>
+        auto has_size_for(Attribute const& attribute, std::vector<T> const& value) -> bool
+        {
+            return attribute.dataspace().nr_elements() == static_cast<hssize_t>(value.size());
+        }
+
+    }  // namespace detail
+
+
     LUE_HDF5_EXPORT auto create_attribute(
         Identifier const& location,
         std::string const& name,
@@ -234,11 +283,15 @@ namespace lue::hdf5 {
     inline auto create_attribute(
         Identifier const& location, std::string const& name, std::string const& value) -> Attribute
     {
-        Datatype const datatype{create_datatype(value.size())};
-        Dataspace const dataspace{Dataspace{H5S_SCALAR}};
+        // A string datatype has at least one byte. Use a dataspace without elements for empty strings.
+        Datatype const datatype{create_datatype(value.empty() ? 1 : value.size())};
+        Dataspace const dataspace{value.empty() ? H5S_NULL : H5S_SCALAR};
         Attribute attribute{create_attribute(location, name, datatype, dataspace)};
 
-        attribute.write(value);
+        if (!value.empty())
+        {
+            attribute.write(value);
+        }
 
         return attribute;
     }
diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index b5dd6c8..30fdd83 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -22,13 +22,19 @@ namespace lue::hdf5 {
             /*!
                 @brief      Store @a value of attribute @a name
 
-                In case no attribute named @a name exists, it is created.
+                In case no attribute named @a name exists, it is created. In case the size of the existing
+                one differs from the size needed to store @a value, it is replaced.
             */
             template<typename T>
             void write(std::string const& name, T const& value)
             {
                 assert(_id.is_valid());
 
+                if (exists(name) && !detail::has_size_for(attribute(name), value))
+                {
+                    remove(name);
+                }
+
                 if (!exists(name))
                 {
                     create_attribute(_id, name, value);
@@ -59,6 +65,8 @@ namespace lue::hdf5 {
 
         private:
 
+            void remove(std::string const& name);
+
             //! Identifier of object owning the attributes
             Identifier _id;
     };
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 8586f25..cd7d4d9 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -67,4 +67,19 @@ namespace lue::hdf5 {
         return attribute(name).datatype();
     }
 
+
+    /*!
+        @brief      Remove the attribute named @a name
+        @exception  std::runtime_error In case the attribute cannot be removed
+    */
+    void Attributes::remove(std::string const& name)
+    {
+        herr_t const status{H5Adelete(_id, name.c_str())};
+
+        if (status < 0)
+        {
+            throw std::runtime_error(std::format("Cannot remove attribute {} at {}", name, _id.pathname()));
+        }
+    }
+
 }  // namespace lue::hdf5
-- 
2.43.0


From 3bda7cd0853c1f98e4d7e27fbcc24b0ee3b1b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 06/75] fix: chunk shapes have no empty dimensions and respect
 the upper size limit

---
 source/data_model/hdf5/source/chunk.cpp | 42 +++++++++++++++----------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/source/data_model/hdf5/source/chunk.cpp b/source/data_model/hdf5/source/chunk.cpp
index 895b7f2..12f7ed7 100644
--- a/source/data_model/hdf5/source/chunk.cpp
+++ b/source/data_model/hdf5/source/chunk.cpp
@@ -2,6 +2,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <numeric>
 #include <tuple>
 
 
@@ -46,9 +47,15 @@ namespace lue::hdf5 {
     {
         Shape result;
 
-        auto const value_size_bytes = size_of_shape(value_shape, size_of_element);
+        // Determine the size of the value using floating points, to prevent overflow in case of large shapes
+        double const value_size_bytes = std::accumulate(
+            value_shape.begin(),
+            value_shape.end(),
+            static_cast<double>(size_of_element),
+            [](double const size, Shape::value_type const extent) -> double
+            { return size * static_cast<double>(extent); });
         double const nr_values_in_largest_chunk =
-            static_cast<double>(upper_chunk_size_limit()) / static_cast<double>(value_size_bytes);
+            static_cast<double>(upper_chunk_size_limit()) / value_size_bytes;
 
         if (nr_values_in_largest_chunk >= 1.0)
         {
@@ -70,14 +77,8 @@ namespace lue::hdf5 {
             result.resize(value_shape.size() + 1, 0);
             result[0] = 1;
 
-            // Determine the size of each chunk dimension (except for the first one, which is 1) in case the
-            // chunk is square. These are all in bytes.
-            double const chunk_size_bytes =
-                static_cast<double>(value_size_bytes) * nr_values_in_largest_chunk;
-            double const chunk_size_bytes_per_dimension =
-                std::pow(chunk_size_bytes, 1.0 / static_cast<double>(value_shape.size()));
-            double chunk_size_elements_per_dimension =
-                chunk_size_bytes_per_dimension / static_cast<double>(size_of_element);
+            // Determine the number of elements that fit in a single chunk.
+            std::size_t nr_elements_left = upper_chunk_size_limit() / size_of_element;
 
             // Adjust the shape of the chunk to the shape of the value. If the shape has dimensions with
             // extents smaller than the chunk size per dimension calculated above, make the chunk size equal
@@ -99,19 +100,26 @@ namespace lue::hdf5 {
                 { return std::get<0>(lhs) < std::get<0>(rhs); });
 
             // Iterate over the dimensions, in increasing extent order.
+            std::size_t nr_dimensions_left = tuples.size();
+
             for (auto const& tuple : tuples)
             {
                 auto const extent = std::get<0>(tuple);
                 auto const index = std::get<1>(tuple);
 
-                // Size of dimension, in elements.
-                auto const chunk_size_elements_of_dimension = std::min(
-                    static_cast<Shape::value_type>(std::floor(chunk_size_elements_per_dimension)), extent);
+                // Size of dimension, in elements, in case the part of the chunk that is left is square.
+                auto const chunk_size_elements_per_dimension = static_cast<Shape::value_type>(std::floor(
+                    std::pow(
+                        static_cast<double>(nr_elements_left), 1.0 / static_cast<double>(nr_dimensions_left))));
+
+                // A chunk contains at least one element
+                auto const chunk_size_elements_of_dimension =
+                    std::max(std::min(chunk_size_elements_per_dimension, extent), Shape::value_type{1});
 
-                // If the extent of the chunk in the current dimension is lower than the average one, we must
-                // enlarge the next chunk dimension extents.
-                chunk_size_elements_per_dimension *=
-                    chunk_size_elements_per_dimension / static_cast<double>(chunk_size_elements_of_dimension);
+                // If the extent of the chunk in the current dimension is lower than the average one, the
+                // next chunk dimension extents are enlarged.
+                nr_elements_left /= chunk_size_elements_of_dimension;
+                --nr_dimensions_left;
 
                 result[index + 1] = chunk_size_elements_of_dimension;
                 assert(result[index + 1] <= value_shape[index]);
-- 
2.43.0


From e3850b7d06fae4d4809d4a6599185a18144b983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 07/75] fix: validation reports missing object indices and
 constant time discretization as errors

---
 source/data_model/cxx/source/validate.cpp | 28 +++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 74806a3..e46f8d3 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -351,13 +351,21 @@ namespace lue::data_model {
             active_set_idxs.push_back(active_object_id.nr_ids());
             auto begin_idx = active_set_idxs[0];
 
-            // TODO(KDJ) This happens when the active object idxs are empty. In
-            // that case, validation of the object tracker succeeded, because
-            // it doesn't now that this collection mustn't be empty, because
-            // it doesn't know it is required. It is required in the case of
-            // different_shape::constant_shape::Value. Not sure how to fix
-            // this conveniently yet.
-            assert(active_object_ids.size() == active_object_idxs.size());
+            // Validation of the object tracker doesn't know that this
+            // collection mustn't be empty. It is required in the case of
+            // different_shape::constant_shape::Value.
+            if (active_object_idxs.size() != active_object_ids.size())
+            {
+                issues.add_error(
+                    active_object_index.id(),
+                    std::format(
+                        "Number of active object indices must equal the number of active object IDs "
+                        "({} != {})",
+                        active_object_idxs.size(),
+                        active_object_ids.size()));
+
+                return;
+            }
 
             for (std::size_t i = 1; i < active_set_idxs.size(); ++i)
             {
@@ -1328,8 +1336,10 @@ namespace lue::data_model {
                         values_can_be_tested = false;
                     }
 
-                    if (properties.shape_variability(discretization_property_name) !=
-                        ShapeVariability::constant)
+                    if (properties.value_variability(discretization_property_name) ==
+                            ValueVariability::variable &&
+                        properties.shape_variability(discretization_property_name) !=
+                            ShapeVariability::constant)
                     {
                         issues.add_error(
                             property.id(),
-- 
2.43.0


From 7dfe748ed73581314ccd3ae59c97c5b28afc13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 08/75] fix: a property-set or property that cannot be created
 leaves nothing behind

---
 .../cxx/include/lue/core/creation_guard.hpp   | 56 +++++++++++++++++++
 .../constant_shape/property.cpp               |  2 +
 .../property/different_shape/property.cpp     |  2 +
 .../variable_shape/property.cpp               |  2 +
 .../same_shape/constant_shape/property.cpp    |  2 +
 .../info/property/same_shape/property.cpp     |  2 +
 .../same_shape/variable_shape/property.cpp    |  2 +
 .../source/object/property/property_set.cpp   | 10 ++++
 8 files changed, 78 insertions(+)
 create mode 100644 source/data_model/cxx/include/lue/core/creation_guard.hpp

diff --git a/source/data_model/cxx/include/lue/core/creation_guard.hpp b/source/data_model/cxx/include/lue/core/creation_guard.hpp
new file mode 100644
index 0000000..6fa4cc0
--- /dev/null
+++ b/source/data_model/cxx/include/lue/core/creation_guard.hpp
@@ -0,0 +1,56 @@
+#pragma once
+#include "lue/hdf5/group.hpp"
+#include <exception>
+#include <string>
+#include <utility>
+
+
+namespace lue::data_model {
+
+    /*!
+        @brief      Removes a group that was just created, in case it cannot be filled
+
+        Instantiate this class right after creating the group. If the scope is left because of an exception,
+        the group is unlinked from its parent again. This prevents that a half-finished group is left behind,
+        which would make it impossible to open the dataset.
+    */
+    class CreationGuard
+    {
+
+        public:
+
+            CreationGuard(hdf5::Group const& parent, std::string name):
+
+                _parent{parent},
+                _name{std::move(name)},
+                _nr_exceptions{std::uncaught_exceptions()}
+
+            {
+            }
+
+            CreationGuard(CreationGuard const& other) = delete;
+
+            CreationGuard(CreationGuard&& other) = delete;
+
+            ~CreationGuard()
+            {
+                if (std::uncaught_exceptions() > _nr_exceptions)
+                {
+                    ::H5Ldelete(_parent.id(), _name.c_str(), H5P_DEFAULT);
+                }
+            }
+
+            auto operator=(CreationGuard const& other) -> CreationGuard& = delete;
+
+            auto operator=(CreationGuard&& other) -> CreationGuard& = delete;
+
+        private:
+
+            hdf5::Group const& _parent;
+
+            std::string const _name;
+
+            int const _nr_exceptions;
+    };
+
+}  // namespace lue::data_model
diff --git a/source/data_model/cxx/source/info/property/different_shape/constant_shape/property.cpp b/source/data_model/cxx/source/info/property/different_shape/constant_shape/property.cpp
index 6b3d753..1842391 100644
--- a/source/data_model/cxx/source/info/property/different_shape/constant_shape/property.cpp
+++ b/source/data_model/cxx/source/info/property/different_shape/constant_shape/property.cpp
@@ -1,4 +1,5 @@
 #include "lue/info/property/different_shape/constant_shape/property.hpp"
+#include "lue/core/creation_guard.hpp"
 #include "lue/core/tag.hpp"
 
 
@@ -66,6 +67,7 @@ namespace lue::data_model::different_shape::constant_shape {
         std::string const& description) -> Property
     {
         PropertyGroup group{create_property_group(parent, name, description)};
+        CreationGuard const guard{parent, name};
         Value value{create_value(group, value_tag, file_datatype, memory_datatype, rank)};
 
         return Property{std::move(group), std::move(value)};
diff --git a/source/data_model/cxx/source/info/property/different_shape/property.cpp b/source/data_model/cxx/source/info/property/different_shape/property.cpp
index 69a9ef2..d34c129 100644
--- a/source/data_model/cxx/source/info/property/different_shape/property.cpp
+++ b/source/data_model/cxx/source/info/property/different_shape/property.cpp
@@ -1,4 +1,5 @@
 #include "lue/info/property/different_shape/property.hpp"
+#include "lue/core/creation_guard.hpp"
 #include "lue/core/tag.hpp"
 
 
@@ -65,6 +66,7 @@ namespace lue::data_model::different_shape {
         std::string const& description) -> Property
     {
         PropertyGroup group{create_property_group(parent, name, description)};
+        CreationGuard const guard{parent, name};
         Value value{create_value(group, value_tag, file_datatype, memory_datatype, rank)};
 
         return Property{std::move(group), std::move(value)};
diff --git a/source/data_model/cxx/source/info/property/different_shape/variable_shape/property.cpp b/source/data_model/cxx/source/info/property/different_shape/variable_shape/property.cpp
index 4a0c298..e92670d 100644
--- a/source/data_model/cxx/source/info/property/different_shape/variable_shape/property.cpp
+++ b/source/data_model/cxx/source/info/property/different_shape/variable_shape/property.cpp
@@ -1,4 +1,5 @@
 #include "lue/info/property/different_shape/variable_shape/property.hpp"
+#include "lue/core/creation_guard.hpp"
 #include "lue/core/tag.hpp"
 
 
@@ -65,6 +66,7 @@ namespace lue::data_model::different_shape::variable_shape {
         std::string const& description) -> Property
     {
         PropertyGroup group{create_property_group(parent, name, description)};
+        CreationGuard const guard{parent, name};
         Value value{create_value(group, value_tag, file_datatype, memory_datatype, rank)};
 
         return Property{std::move(group), std::move(value)};
diff --git a/source/data_model/cxx/source/info/property/same_shape/constant_shape/property.cpp b/source/data_model/cxx/source/info/property/same_shape/constant_shape/property.cpp
index 3048333..57c1de5 100644
--- a/source/data_model/cxx/source/info/property/same_shape/constant_shape/property.cpp
+++ b/source/data_model/cxx/source/info/property/same_shape/constant_shape/property.cpp
@@ -1,4 +1,5 @@
 #include "lue/info/property/same_shape/constant_shape/property.hpp"
+#include "lue/core/creation_guard.hpp"
 #include "lue/core/tag.hpp"
 
 
@@ -87,6 +88,7 @@ namespace lue::data_model::same_shape::constant_shape {
         std::string const& description) -> Property
     {
         PropertyGroup group{create_property_group(parent, name, description)};
+        CreationGuard const guard{parent, name};
         Value value{create_value(group, value_tag, file_datatype, memory_datatype, array_shape)};
 
         return Property{std::move(group), std::move(value)};
diff --git a/source/data_model/cxx/source/info/property/same_shape/property.cpp b/source/data_model/cxx/source/info/property/same_shape/property.cpp
index 749fab7..57a2b95 100644
--- a/source/data_model/cxx/source/info/property/same_shape/property.cpp
+++ b/source/data_model/cxx/source/info/property/same_shape/property.cpp
@@ -1,4 +1,5 @@
 #include "lue/info/property/same_shape/property.hpp"
+#include "lue/core/creation_guard.hpp"
 #include "lue/core/tag.hpp"
 
 
@@ -87,6 +88,7 @@ namespace lue::data_model::same_shape {
         std::string const& description) -> Property
     {
         PropertyGroup group{create_property_group(parent, name, description)};
+        CreationGuard const guard{parent, name};
         Value value{create_value(group, value_tag, file_datatype, memory_datatype, array_shape)};
 
         return Property{std::move(group), std::move(value)};
diff --git a/source/data_model/cxx/source/info/property/same_shape/variable_shape/property.cpp b/source/data_model/cxx/source/info/property/same_shape/variable_shape/property.cpp
index d18ce98..48fe6b9 100644
--- a/source/data_model/cxx/source/info/property/same_shape/variable_shape/property.cpp
+++ b/source/data_model/cxx/source/info/property/same_shape/variable_shape/property.cpp
@@ -1,4 +1,5 @@
 #include "lue/info/property/same_shape/variable_shape/property.hpp"
+#include "lue/core/creation_guard.hpp"
 #include "lue/core/tag.hpp"
 
 
@@ -65,6 +66,7 @@ namespace lue::data_model::same_shape::variable_shape {
         std::string const& description) -> Property
     {
         PropertyGroup group{create_property_group(parent, name, description)};
+        CreationGuard const guard{parent, name};
         Value value{create_value(group, value_tag, file_datatype, memory_datatype, rank)};
 
         return Property{std::move(group), std::move(value)};
diff --git a/source/data_model/cxx/source/object/property/property_set.cpp b/source/data_model/cxx/source/object/property/property_set.cpp
index bacdc1c..bc546f5 100644
--- a/source/data_model/cxx/source/object/property/property_set.cpp
+++ b/source/data_model/cxx/source/object/property/property_set.cpp
@@ -1,4 +1,5 @@
 #include "lue/object/property/property_set.hpp"
+#include "lue/core/creation_guard.hpp"
 #include "lue/core/tag.hpp"
 
 
@@ -175,6 +176,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         create_object_tracker(group);
         create_properties(group);
@@ -197,6 +199,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         create_object_tracker(group);
         create_space_domain(group, space_configuration, space_coordinate_datatype, rank);
@@ -215,6 +218,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         create_object_tracker(group);
         link_time_domain(group, domain);
@@ -237,6 +241,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         create_object_tracker(group);
         create_time_domain(group, time_configuration, clock);
@@ -260,6 +265,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         link_object_tracker(group, object_tracker);
         create_time_domain(group, time_configuration, clock);
@@ -280,6 +286,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         link_object_tracker(group, object_tracker);
         link_time_domain(group, domain);
@@ -305,6 +312,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         create_object_tracker(group);
         create_time_domain(group, time_configuration, clock);
@@ -330,6 +338,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         create_object_tracker(group);
         link_time_domain(group, time_domain);
@@ -356,6 +365,7 @@ namespace lue::data_model {
         }
 
         hdf5::Group group{hdf5::create_group(parent, name)};
+        CreationGuard const guard{parent, name};
 
         link_object_tracker(group, object_tracker);
         link_time_domain(group, time_domain);
-- 
2.43.0


From ebcd2f84c9a2c868649e446bfe2d14a55d8e562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 09/75] fix: comparing clocks takes the epoch into account, and
 ordering clocks is consistent

---
 source/data_model/cxx/include/lue/core/time/epoch.hpp | 5 +++++
 source/data_model/cxx/source/core/clock.cpp           | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/data_model/cxx/include/lue/core/time/epoch.hpp b/source/data_model/cxx/include/lue/core/time/epoch.hpp
index 998022b..9aade2d 100644
--- a/source/data_model/cxx/include/lue/core/time/epoch.hpp
+++ b/source/data_model/cxx/include/lue/core/time/epoch.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "lue/data_model/export.hpp"
+#include <compare>
 #include <cstdint>
 #include <optional>
 #include <string>
@@ -60,6 +61,10 @@ namespace lue::data_model::time {
 
             auto operator=(Epoch&& other) -> Epoch& = default;
 
+            auto operator==(Epoch const& other) const -> bool = default;
+
+            auto operator<=>(Epoch const& other) const = default;
+
             auto kind() const -> Kind;
 
             auto origin() const -> std::optional<std::string> const&;
diff --git a/source/data_model/cxx/source/core/clock.cpp b/source/data_model/cxx/source/core/clock.cpp
index 3baa29e..6932235 100644
--- a/source/data_model/cxx/source/core/clock.cpp
+++ b/source/data_model/cxx/source/core/clock.cpp
@@ -1,4 +1,5 @@
 #include "lue/core/clock.hpp"
+#include <tuple>
 
 
 namespace lue::data_model {
@@ -41,7 +42,7 @@ namespace lue::data_model {
 
     auto Clock::operator==(Clock const& other) const -> bool
     {
-        return _unit == other._unit && _nr_units == other._nr_units;
+        return _epoch == other._epoch && _unit == other._unit && _nr_units == other._nr_units;
     }
 
 
@@ -53,7 +54,7 @@ namespace lue::data_model {
 
     auto Clock::operator<(Clock const& other) const -> bool
     {
-        return _unit < other._unit || _nr_units < other._nr_units;
+        return std::tie(_epoch, _unit, _nr_units) < std::tie(other._epoch, other._unit, other._nr_units);
     }
 
 }  // namespace lue::data_model
-- 
2.43.0


From 0fc6eda9c38e6eca67f055d7c2139ca970e22594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 10/75] fix: opening a soft link that does not exist raises an
 exception instead of ending the process

---
 .../data_model/cxx/source/info/property/property_group.cpp   | 4 ----
 source/data_model/cxx/source/object/space_domain.cpp         | 2 --
 source/data_model/hdf5/source/soft_link.cpp                  | 5 ++++-
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/source/data_model/cxx/source/info/property/property_group.cpp b/source/data_model/cxx/source/info/property/property_group.cpp
index 6678d9b..1fe4a67 100644
--- a/source/data_model/cxx/source/info/property/property_group.cpp
+++ b/source/data_model/cxx/source/info/property/property_group.cpp
@@ -99,16 +99,12 @@ namespace lue::data_model {
 
     auto PropertyGroup::time_discretization_property() -> PropertyGroup
     {
-        assert(this->contains_soft_link(time_discretization_property_tag));
-
         return PropertyGroup{*this, hdf5::SoftLink{*this, time_discretization_property_tag}.path()};
     }
 
 
     auto PropertyGroup::space_discretization_property() -> PropertyGroup
     {
-        assert(this->contains_soft_link(space_discretization_property_tag));
-
         return PropertyGroup{*this, hdf5::SoftLink{*this, space_discretization_property_tag}.path()};
     }
 
diff --git a/source/data_model/cxx/source/object/space_domain.cpp b/source/data_model/cxx/source/object/space_domain.cpp
index e526159..dbd06f2 100644
--- a/source/data_model/cxx/source/object/space_domain.cpp
+++ b/source/data_model/cxx/source/object/space_domain.cpp
@@ -52,8 +52,6 @@ namespace lue::data_model {
 
     auto SpaceDomain::discretized_presence_property() -> PropertyGroup
     {
-        assert(this->contains_soft_link(presence_discretization_property_tag));
-
         return PropertyGroup{*this, hdf5::SoftLink{*this, presence_discretization_property_tag}.path()};
     }
 
diff --git a/source/data_model/hdf5/source/soft_link.cpp b/source/data_model/hdf5/source/soft_link.cpp
index 02b676b..00c01bb 100644
--- a/source/data_model/hdf5/source/soft_link.cpp
+++ b/source/data_model/hdf5/source/soft_link.cpp
@@ -10,7 +10,10 @@ namespace lue::hdf5 {
         Link{group, name}
 
     {
-        assert(soft_link_exists(group, name));
+        if (!soft_link_exists(group, name))
+        {
+            throw std::runtime_error(std::format("Soft link {} does not exist", name));
+        }
     }
 
 
-- 
2.43.0


From 0beba6e03b0e06e957e31a3b5f0ae7eeddd85435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 11/75] fix: comparing rasters handles blocks at the edges,
 other block shapes and 64-bit and 8-bit signed integers

---
 .../gdal/include/lue/gdal/raster.hpp           |  3 +++
 .../data_model/gdal/source/compare_rasters.cpp | 18 +++++++++++++-----
 source/data_model/gdal/source/raster.cpp       | 10 ++++++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index fc9a267..f5001cd 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -67,6 +67,9 @@ namespace lue::gdal {
 
                     auto read(void* buffer) -> void;
 
+                    auto read(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
+                        -> void;
+
                     auto write(void* buffer) -> void;
 
                     auto write(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7664110..01f4aba 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -1,9 +1,12 @@
 #include "lue/gdal/compare_rasters.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
+#include "lue/gdal/type_traits.hpp"
 #include "lue/define.hpp"
 #include "lue/string.hpp"
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <format>
 
 
@@ -63,9 +66,12 @@ namespace lue::gdal {
             };
 
 
-            // Read blocks of data and compare the values
+            // Read blocks of data and compare the values. The shapes of the blocks of both bands can differ, and
+            // blocks can be larger than the bands, so read windows of cells that are located within both bands.
             auto const shape{band1.shape()};
-            auto const block_shape{band1.block_shape()};
+            auto const natural_block_shape{band1.block_shape()};
+            Shape const block_shape{
+                std::min(natural_block_shape[0], shape[0]), std::min(natural_block_shape[1], shape[1])};
             Blocks const blocks{shape, block_shape};
 
             std::vector<Element> values1(nr_elements(block_shape));
@@ -78,10 +84,12 @@ namespace lue::gdal {
             {
                 for (gdal::Count block_x = 0; block_x < nr_blocks_x && !different_values_found; ++block_x)
                 {
-                    auto const nr_valid_cells = nr_elements(blocks.shape_in_valid_cells({block_x, block_y}));
+                    auto const window_shape = blocks.shape_in_valid_cells({block_y, block_x});
+                    auto const nr_valid_cells = nr_elements(window_shape);
+                    Offset const offset{block_y * block_shape[0], block_x * block_shape[1]};
 
-                    band1.read_block({block_y, block_x}, values1.data());
-                    band2.read_block({block_y, block_x}, values2.data());
+                    band1.read(offset, window_shape, data_type_v<Element>, values1.data());
+                    band2.read(offset, window_shape, data_type_v<Element>, values2.data());
 
                     bool values_are_equal = compare_elements(values1, values2, nr_valid_cells);
 
diff --git a/source/data_model/gdal/source/raster.cpp b/source/data_model/gdal/source/raster.cpp
index 118525f..c2f6199 100644
--- a/source/data_model/gdal/source/raster.cpp
+++ b/source/data_model/gdal/source/raster.cpp
@@ -58,6 +58,16 @@ namespace lue::gdal {
     }
 
 
+    /*!
+        @overload
+    */
+    auto Raster::Band::read(
+        Offset const& offset, Shape const& shape, GDALDataType const data_type, void* buffer) -> void
+    {
+        gdal::read(*_band_ptr, offset, shape, data_type, buffer);
+    }
+
+
     /*!
         @sa         gdal::write
     */
-- 
2.43.0


From 6066d03fcaf2337582c88cd5f0cfec9474b121e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 12/75] fix: adding a raster layer refuses the name of any
 property that is there already

---
 source/data_model/hl/source/raster_view.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 7ccbf5c..70425d7 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -291,7 +291,11 @@ namespace lue::data_model {
 
             RasterProperties& raster_properties{properties.template collection<RasterProperties>()};
 
-            assert(!raster_properties.contains(name));
+            if (properties.contains(name))
+            {
+                throw std::runtime_error(std::format("Property {} already exists", name));
+            }
+
 
             RasterProperty& raster_property{raster_properties.add(name, datatype, 2)};
 
@@ -560,7 +564,11 @@ namespace lue::data_model {
 
             RasterProperties& raster_properties{properties.template collection<RasterProperties>()};
 
-            assert(!raster_properties.contains(name));
+            if (properties.contains(name))
+            {
+                throw std::runtime_error(std::format("Property {} already exists", name));
+            }
+
 
             Rank const rank{3};
             RasterProperty& raster_property{raster_properties.add(name, datatype, rank)};
-- 
2.43.0


From df71db7189a0995ca9df1cd0804710af372c6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 13/75] fix: a temporal raster in a phenomenon with an object
 gets that object's ID as active ID

---
 source/data_model/hl/source/raster_view.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 70425d7..7784691 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -747,6 +747,10 @@ namespace lue::data_model {
                 phenomenon.object_id().expand(1);
                 phenomenon.object_id().write(0, &object_id);
             }
+            else
+            {
+                phenomenon.object_id().read(0, &object_id);
+            }
 
             TimeConfiguration time_configuration{TimeDomainItemType::box};
             SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-- 
2.43.0


From 1e7cd96fb70f30588bf95edeefd9c43b2a0c54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 14/75] fix: reading 16-bit integer arrays in Python

---
 source/data_model/python/source/core/array.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 3da2526..d54023a 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -280,6 +280,14 @@ namespace lue::data_model {
             {
                 result = create_array<int8_t>(slice_shape);
             }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+            {
+                result = create_array<uint16_t>(slice_shape);
+            }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+            {
+                result = create_array<int16_t>(slice_shape);
+            }
             else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
             {
                 result = create_array<uint32_t>(slice_shape);
@@ -346,6 +354,14 @@ namespace lue::data_model {
         {
             result = create_scalar<int8_t>(array, hyperslab);
         }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+        {
+            result = create_scalar<uint16_t>(array, hyperslab);
+        }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+        {
+            result = create_scalar<int16_t>(array, hyperslab);
+        }
         else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
         {
             result = create_scalar<uint32_t>(array, hyperslab);
-- 
2.43.0


From bec331044f72883bde8d91ae3c531e9321c16fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 15/75] fix: large Python integers as index of or value for an
 array

---
 .../data_model/python/source/core/array.cpp   | 45 +++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index d54023a..61edefc 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -10,6 +10,7 @@
 #include <pybind11/stl.h>
 #include <algorithm>
 #include <format>
+#include <limits>
 #include <ranges>
 
 
@@ -110,6 +111,24 @@ namespace lue::data_model {
     }
 
 
+    /*!
+        @brief      Convert a Python integer
+        @exception  py::error_already_set In case @a value cannot be represented by a @a T
+    */
+    template<typename T>
+    auto to_integer(py::int_ const& value) -> T
+    {
+        T const result{static_cast<T>(value)};
+
+        if (PyErr_Occurred() != nullptr)
+        {
+            throw py::error_already_set();
+        }
+
+        return result;
+    }
+
+
     static void update_hyperslab_by_index(
         size_t const dimension_idx,
         long index,
@@ -569,6 +588,20 @@ namespace lue::data_model {
     }
 
 
+    template<typename Selection>
+    void set_integer(Array& array, Selection const& selection, py::int_ const& value)
+    {
+        if (value > py::int_{std::numeric_limits<std::int64_t>::max()})
+        {
+            set_item(array, selection, to_integer<std::uint64_t>(value));
+        }
+        else
+        {
+            set_item(array, selection, to_integer<std::int64_t>(value));
+        }
+    }
+
+
     template<typename T>
     void set_item(Array& array, std::int64_t const index, T const* values)
     {
@@ -766,7 +799,13 @@ namespace lue::data_model {
                     hdf5::Shape slice_shape{shape};
                     size_t nr_erased_dimensions = 0;
 
-                    update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
+                    update_hyperslab_by_index(
+                        0,
+                        to_integer<std::int64_t>(index),
+                        shape,
+                        hyperslab,
+                        slice_shape,
+                        nr_erased_dimensions);
 
                     return read_hyperslab_from_array(array, hyperslab, slice_shape);
                 })
@@ -804,7 +843,7 @@ namespace lue::data_model {
             .def(
                 "__setitem__",
                 [](Array& array, std::int64_t const index, py::int_ const& value) -> void
-                { set_item(array, index, std::int64_t{value}); })
+                { set_integer(array, index, value); })
 
             .def(
                 "__setitem__",
@@ -821,7 +860,7 @@ namespace lue::data_model {
             .def(
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::int_ const& value) -> void
-                { set_item(array, slice, std::int64_t{value}); })
+                { set_integer(array, slice, value); })
 
             .def(
                 "__setitem__",
-- 
2.43.0


From b7ea79f148ca207a047177adcd6aaa1386ee7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 16/75] fix: only a tuple indexes several dimensions of an
 array in Python

---
 source/data_model/python/source/core/array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 61edefc..a3a8765 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -668,7 +668,7 @@ namespace lue::data_model {
     }
 
 
-    static auto create_hyperslab(hdf5::Shape const shape, std::vector<py::object> const& indices)
+    static auto create_hyperslab(hdf5::Shape const shape, py::tuple const& indices)
         -> std::tuple<hdf5::Hyperslab, hdf5::Shape>
     {
         // With each index, a selection is made along the corresponding
@@ -697,7 +697,7 @@ namespace lue::data_model {
 
         for (size_t i = 0; i < indices.size(); ++i)
         {
-            auto const& index = indices[i];
+            py::object const index = indices[i];
 
             // Strings are implicitly converted into a py::slice.
             // The characters are used for start:count:step. To filter
@@ -746,7 +746,7 @@ namespace lue::data_model {
     template<typename T>
     void set_item(
         Array& array,
-        std::vector<py::object> const& indices,
+        py::tuple const& indices,
         py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
         hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
@@ -826,7 +826,7 @@ namespace lue::data_model {
 
             .def(
                 "__getitem__",
-                [](Array const& array, std::vector<py::object> const& indices) -> py::object
+                [](Array const& array, py::tuple const& indices) -> py::object
                 {
                     auto [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
 
@@ -890,7 +890,7 @@ namespace lue::data_model {
     .def(                                                                                                    \
         "__setitem__",                                                                                       \
         [](Array& array,                                                                                     \
-           std::vector<py::object> const& indices,                                                           \
+           py::tuple const& indices,                                                                        \
            py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
         { set_item<T>(array, indices, values); })
 
-- 
2.43.0


From 6b13000558bd54b4c90e853a9d2241f26a33bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 17/75] fix: assigning a not contiguous NumPy array to a slice
 of an array in Python

---
 source/data_model/python/source/core/array.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index a3a8765..d9cccba 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -959,11 +959,10 @@ namespace lue::data_model {
 
                     if (!utf8_encoded_strings && !unicode_strings)
                     {
-                        throw std::runtime_error(
-                            std::format(
-                                "Expected array with utf8 encoded strings or "
-                                "Unicode strings, but got array with format {}",
-                                info.format));
+                        // Not for us. Numbers that have to be copied first (because they are not stored
+                        // contiguously, for example) end up here before the overloads for numbers are
+                        // allowed to convert their arguments.
+                        throw py::reference_cast_error{};
                     }
 
                     hdf5::Shape const shape{array.shape()};
-- 
2.43.0


From f4eb9d63791cfd1e05f064a60be23b199fde29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 18/75] fix: assigning a NumPy array to an item of an array in
 Python uses the shape of the values

---
 source/data_model/python/source/core/array.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index d9cccba..ddbc9b5 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -603,7 +603,11 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(Array& array, std::int64_t const index, T const* values)
+    void set_item(
+        Array& array,
+        hdf5::Dataspace const& memory_dataspace,
+        std::int64_t const index,
+        T const* values)
     {
         hdf5::Shape const shape{array.shape()};
         hdf5::Hyperslab hyperslab{shape};
@@ -612,7 +616,7 @@ namespace lue::data_model {
 
         update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
-        write_to_array(array, hyperslab, values);
+        write_to_array(array, memory_dataspace, hyperslab, values);
     }
 
 
@@ -622,7 +626,10 @@ namespace lue::data_model {
         std::int64_t const index,
         py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
-        set_item(array, index, static_cast<T const*>(values.request().ptr));
+        hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
+        auto const memory_dataspace = hdf5::create_dataspace(sizes);
+
+        set_item(array, memory_dataspace, index, static_cast<T const*>(values.request().ptr));
     }
 
 
-- 
2.43.0


From cb2373e9913034324b4d842fab3478a3bfcd7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 19/75] fix: assigning strings to an array in Python writes
 each of them, to the selected items only

---
 .../data_model/python/source/core/array.cpp   | 68 +++++++++----------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index ddbc9b5..e29694d 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -954,6 +954,9 @@ namespace lue::data_model {
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::array& values) -> void
                 {
+                    // Make sure the strings are laid out contiguously, in native byte order
+                    values = values.attr("astype")(
+                        values.dtype().attr("newbyteorder")("="), "order"_a = "C", "copy"_a = false);
                     auto const info = values.request();
 
                     // Verify values are strings
@@ -964,7 +967,7 @@ namespace lue::data_model {
                     bool utf8_encoded_strings = info.format.back() == 's';
                     bool unicode_strings = info.format.back() == 'w';
 
-                    if (!utf8_encoded_strings && !unicode_strings)
+                    if ((!utf8_encoded_strings && !unicode_strings) || !array.datatype().is_string())
                     {
                         // Not for us. Numbers that have to be copied first (because they are not stored
                         // contiguously, for example) end up here before the overloads for numbers are
@@ -986,9 +989,19 @@ namespace lue::data_model {
 
                     auto const nr_strings = slice_shape[0];
 
+                    if (info.ndim != 1 || static_cast<hdf5::Shape::value_type>(info.size) != nr_strings)
+                    {
+                        throw std::runtime_error(
+                            std::format(
+                                "Expected a 1-D array with {} strings, but got a {}-D array with {} strings",
+                                nr_strings,
+                                info.ndim,
+                                info.size));
+                    }
+
                     // Copy strings to new buffer that is compatible with HDF5
                     // variable length strings
-                    auto hdf5_buffer = std::make_unique<char*[]>(nr_strings);
+                    std::vector<std::string> strings_utf8(nr_strings);
 
                     if (utf8_encoded_strings)
                     {
@@ -1008,16 +1021,9 @@ namespace lue::data_model {
                             auto const start_of_string_utf8 = py_buffer_utf8 + (i * nr_bytes_per_string_utf8);
 
                             // Copy bytes and trim tailing null characters
-                            std::string string_utf8{start_of_string_utf8, nr_bytes_per_string_utf8};
+                            strings_utf8[i].assign(start_of_string_utf8, nr_bytes_per_string_utf8);
                             boost::algorithm::trim_right_if(
-                                string_utf8, [](char const c) -> bool { return c == '\0'; });
-
-                            // Make space for the UTF8 encoded string + null character. Copy
-                            // the string and append with a null.
-                            hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                            auto hdf5_string = hdf5_buffer.get()[i];
-                            std::ranges::copy(string_utf8, hdf5_string);
-                            hdf5_string[string_utf8.size()] = '\0';
+                                strings_utf8[i], [](char const c) -> bool { return c == '\0'; });
                         }
                     }
                     else
@@ -1027,7 +1033,6 @@ namespace lue::data_model {
                         // Length in bytes of each individual string
                         std::size_t const nr_bytes_per_string_utf32 = info.itemsize;
 
-#ifndef NDEBUG
                         // Number of bytes used to represent a code point
                         std::size_t const nr_bytes_per_code_point_utf32 = 4;
                         assert(nr_bytes_per_string_utf32 % nr_bytes_per_code_point_utf32 == 0);
@@ -1036,7 +1041,6 @@ namespace lue::data_model {
                         std::size_t const nr_code_points =
                             nr_bytes_per_string_utf32 / nr_bytes_per_code_point_utf32;
                         assert(nr_code_points == std::stoul(info.format));
-#endif
 
                         // Buffer is a 1-D array with all strings back to back. The maximum
                         // length of each string is the same: nr_code_points. Shorter strings
@@ -1047,12 +1051,9 @@ namespace lue::data_model {
 
                             for (std::size_t i = 0; i < nr_strings; ++i)
                             {
-                                py::str py_string_utf32{
-                                    py::reinterpret_steal<py::str>(::PyUnicode_DecodeUTF32(
-                                        (char const*)start_of_string_utf32,
-                                        nr_bytes_per_string_utf32,
-                                        nullptr,
-                                        nullptr))};
+                                auto py_string_utf32 = py::reinterpret_steal<py::str>(
+                                    ::PyUnicode_FromKindAndData(
+                                        PyUnicode_4BYTE_KIND, start_of_string_utf32, nr_code_points));
 
                                 if (!py_string_utf32)
                                 {
@@ -1061,7 +1062,7 @@ namespace lue::data_model {
 
                                 // Encode string in UTF8, which is how strings are stored
                                 // in LUE. Remove any trailing null characters.
-                                auto py_string_utf8 = py::reinterpret_steal<py::str>(
+                                auto py_string_utf8 = py::reinterpret_steal<py::bytes>(
                                     ::PyUnicode_AsUTF8String(py_string_utf32.ptr()));
 
                                 if (!py_string_utf8)
@@ -1069,29 +1070,22 @@ namespace lue::data_model {
                                     throw py::error_already_set();
                                 }
 
-                                auto string_utf8 = py_string_utf8.cast<std::string>();
+                                strings_utf8[i] = py_string_utf8.cast<std::string>();
                                 boost::algorithm::trim_right_if(
-                                    string_utf8, [](char const c) -> bool { return c == '\0'; });
-
-                                // Make space for the UTF8 encoded string + null
-                                // character. Copy the string and append with a null.
-                                hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                                auto hdf5_string = hdf5_buffer.get()[i];
-                                std::ranges::copy(string_utf8, hdf5_string);
-                                hdf5_string[string_utf8.size()] = '\0';
-                            }
+                                    strings_utf8[i], [](char const c) -> bool { return c == '\0'; });
 
-                            start_of_string_utf32 += nr_bytes_per_string_utf32;
+                                start_of_string_utf32 += nr_code_points;
+                            }
                         }
                     }
 
-                    array.write(hdf5_buffer.get());
+                    std::vector<char const*> hdf5_buffer(nr_strings);
+                    std::ranges::transform(
+                        strings_utf8,
+                        hdf5_buffer.begin(),
+                        [](std::string const& string) -> char const* { return string.c_str(); });
 
-                    // TODO Make sure this happens also in case of errors
-                    for (std::size_t i = 0; i < nr_strings; ++i)
-                    {
-                        delete[] hdf5_buffer.get()[i];
-                    }
+                    array.write(hyperslab, hdf5_buffer.data());
                 })
 
             ;
-- 
2.43.0


From e9c1b5cbd5d72714c3df50b8c0a4e0edd1ef3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 20/75] fix: assigning values that have to be converted to an
 array first keeps their values in Python

---
 .../data_model/python/source/core/array.cpp   | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index e29694d..30fd37a 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -1088,6 +1088,31 @@ namespace lue::data_model {
                     array.write(hyperslab, hdf5_buffer.data());
                 })
 
+            // Values that are not stored in a contiguous array with native byte order yet end up here,
+            // before any of the overloads above is allowed to convert them to whatever the value type
+            // of its argument is. First convert them to an array of their own type.
+            .def(
+                "__setitem__",
+                [](py::object const& array, py::object const& index, py::object const& value) -> void
+                {
+                    if (py::isinstance<py::array>(value))
+                    {
+                        auto const values = py::reinterpret_borrow<py::array>(value);
+
+                        if ((values.flags() & py::array::c_style) &&
+                            values.dtype().attr("isnative").cast<bool>())
+                        {
+                            // Nothing to convert
+                            throw py::reference_cast_error{};
+                        }
+                    }
+
+                    py::object const values = py::module::import("numpy").attr("asarray")(value);
+                    py::object const dtype = values.attr("dtype").attr("newbyteorder")("=");
+
+                    array.attr("__setitem__")(index, values.attr("astype")(dtype, "order"_a = "C"));
+                })
+
             ;
     }
 
-- 
2.43.0


From 409684da83e2e484af7376d69a5e701585ab87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 21/75] fix: reading strings from an array in Python

---
 .../data_model/python/source/core/array.cpp   | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 30fd37a..f005a89 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -221,7 +221,8 @@ namespace lue::data_model {
 
             // Object to scope the array of arrays allocated by the next read. The values_read
             // sub-arrays will be freed.
-            lue::hdf5::VLenMemory vlen{memory_datatype, array.dataspace(), values_read.get()};
+            lue::hdf5::VLenMemory vlen{
+                memory_datatype, hdf5::create_dataspace(slice_shape), values_read.get()};
 
             array.read(hyperslab, values_read.get());
 
@@ -233,36 +234,36 @@ namespace lue::data_model {
 
             for (size_t i = 0; i < nr_strings; ++i)
             {
+                if (values_read[i] == nullptr)
+                {
+                    // String has not been written yet
+                    continue;
+                }
+
                 assert(values_read[i][strlen(values_read[i])] == '\0');
                 max_nr_bytes_per_string_utf8 =
                     std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
             }
 
-            // Number of bytes used to represent a single code point in a NumPy Unicode
-            // string, which uses UTF32 encoding (~= UCS4).
-            std::size_t const nr_bytes_per_code_point_utf32{4};
-
             // Maximum number of code points per NumPy Unicode string. This happens when
             // a single character is represented by a single byte on the HDF5 side (UTF8).
-            std::size_t const max_nr_code_points{max_nr_bytes_per_string_utf8};
-
-            // Maximum number of bytes per NumPy Unicode string
-            std::size_t const max_nr_bytes_per_string_utf32{
-                max_nr_code_points * nr_bytes_per_code_point_utf32};
+            // NumPy strings contain at least a single code point.
+            std::size_t const max_nr_code_points{std::max<std::size_t>(max_nr_bytes_per_string_utf8, 1)};
 
             // Buffer for all Unicode strings, back to back
-            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_bytes_per_string_utf32)};
-            std::fill(
-                py_buffer_utf32.get(),
-                py_buffer_utf32.get() + nr_strings * max_nr_bytes_per_string_utf32,
-                '\0');
+            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_code_points)};
 
             {
                 py::str py_string{};
                 Py_UCS4* buffer_ptr{py_buffer_utf32.get()};
 
-                for (std::size_t i = 0; i < nr_strings; ++i)
+                for (std::size_t i = 0; i < nr_strings; ++i, buffer_ptr += max_nr_code_points)
                 {
+                    if (values_read[i] == nullptr)
+                    {
+                        continue;
+                    }
+
                     // Decode UTF8 string as read from LUE array
                     py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(values_read[i]));
 
@@ -272,13 +273,11 @@ namespace lue::data_model {
                     }
 
                     // Copy Unicode string into the right slot in the Numpy array
-                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_bytes_per_string_utf32, 0) ==
+                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_code_points, 0) ==
                         nullptr)
                     {
                         throw py::error_already_set();
                     }
-
-                    buffer_ptr += max_nr_bytes_per_string_utf32;
                 }
             }
 
-- 
2.43.0


From 069dea12a13626d821fbbac349b31dd413849a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 22/75] fix: a phenomenon obtained as attribute of a universe
 in Python is not a copy

---
 source/data_model/python/source/object/universe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/python/source/object/universe.cpp b/source/data_model/python/source/object/universe.cpp
index 5f6d701..8a52254 100644
--- a/source/data_model/python/source/object/universe.cpp
+++ b/source/data_model/python/source/object/universe.cpp
@@ -131,7 +131,7 @@ namespace lue {
                                 std::format("Universe does not contain phenomenon '{}'", phenomenon_name));
                         }
 
-                        return py::cast(universe.phenomena()[phenomenon_name]);
+                        return py::cast(&universe.phenomena()[phenomenon_name]);
                     },
                     py::return_value_policy::reference_internal)
 
-- 
2.43.0


From 5b12d0156fb99389b004d27f4351a38fbbb3337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 23/75] fix: items obtained from a dataset in Python keep it
 alive

---
 source/data_model/python/source/dataset.cpp   |  3 +-
 .../python/source/object/phenomenon.cpp       |  3 +-
 .../python/source/object/property_set.cpp     | 46 ++++++++++++++-----
 .../python/source/object/universe.cpp         |  3 +-
 4 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/source/data_model/python/source/dataset.cpp b/source/data_model/python/source/dataset.cpp
index ec52030..1837a30 100644
--- a/source/data_model/python/source/dataset.cpp
+++ b/source/data_model/python/source/dataset.cpp
@@ -150,7 +150,8 @@ namespace lue {
 
                         return result;
                     },
-                    py::return_value_policy::reference_internal)
+                    py::return_value_policy::reference_internal,
+                    py::keep_alive<0, 1>())
 
                 ;
 
diff --git a/source/data_model/python/source/object/phenomenon.cpp b/source/data_model/python/source/object/phenomenon.cpp
index 7e8576c..5b0839b 100644
--- a/source/data_model/python/source/object/phenomenon.cpp
+++ b/source/data_model/python/source/object/phenomenon.cpp
@@ -251,7 +251,8 @@ namespace lue {
 
                         return py::cast(&property_sets[property_set_name]);
                     },
-                    py::return_value_policy::reference_internal)
+                    py::return_value_policy::reference_internal,
+                    py::keep_alive<0, 1>())
 
                 .def(
                     "add_property_set",
diff --git a/source/data_model/python/source/object/property_set.cpp b/source/data_model/python/source/object/property_set.cpp
index 25ff653..c2d3eae 100644
--- a/source/data_model/python/source/object/property_set.cpp
+++ b/source/data_model/python/source/object/property_set.cpp
@@ -165,6 +165,16 @@ namespace lue {
         }
 
 
+        // Return a py::object referring to a property which keeps the property-set
+        // alive that contains it
+        template<typename Property>
+        py::object property_reference(PropertySet& property_set, Property& property)
+        {
+            return py::cast(
+                &property, py::return_value_policy::reference_internal, py::cast(&property_set));
+        }
+
+
         // Return a py::object to a property of the right type. Note that a
         // reference to the property is stored. The lifetime of this object
         // is tied to the properties instance passed in.
@@ -326,7 +336,8 @@ namespace lue {
                     "__getitem__",
                     [](Properties& properties, std::string const& name)
                     { return property_reference(properties, name); },
-                    py::return_value_policy::reference_internal)
+                    py::return_value_policy::reference_internal,
+                    py::keep_alive<0, 1>())
 
                 .def_property_readonly(
                     "names",
@@ -482,7 +493,8 @@ namespace lue {
 
                         return property_reference(property_set.properties(), property_name);
                     },
-                    py::return_value_policy::reference_internal)
+                    py::return_value_policy::reference_internal,
+                    py::keep_alive<0, 1>())
 
                 .def(
                     "add_property",
@@ -566,15 +578,19 @@ namespace lue {
                             case ValueVariability::constant:
                             {
                                 using Property = same_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = property_reference(
+                                    property_set,
+                                    property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description));
                                 break;
                             }
                             case ValueVariability::variable:
                             {
                                 using Property = same_shape::constant_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = property_reference(
+                                    property_set,
+                                    property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description));
                                 break;
                             }
                         }
@@ -672,8 +688,10 @@ namespace lue {
                                     case ShapeVariability::variable:
                                     {
                                         using Property = same_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = property_reference(
+                                            property_set,
+                                            property_set.properties().add<Property>(
+                                                name, datatype_, rank, description));
                                         break;
                                     }
                                 }
@@ -687,15 +705,19 @@ namespace lue {
                                     case ShapeVariability::constant:
                                     {
                                         using Property = different_shape::constant_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = property_reference(
+                                            property_set,
+                                            property_set.properties().add<Property>(
+                                                name, datatype_, rank, description));
                                         break;
                                     }
                                     case ShapeVariability::variable:
                                     {
                                         using Property = different_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = property_reference(
+                                            property_set,
+                                            property_set.properties().add<Property>(
+                                                name, datatype_, rank, description));
                                         break;
                                     }
                                 }
diff --git a/source/data_model/python/source/object/universe.cpp b/source/data_model/python/source/object/universe.cpp
index 8a52254..f9ff797 100644
--- a/source/data_model/python/source/object/universe.cpp
+++ b/source/data_model/python/source/object/universe.cpp
@@ -133,7 +133,8 @@ namespace lue {
 
                         return py::cast(&universe.phenomena()[phenomenon_name]);
                     },
-                    py::return_value_policy::reference_internal)
+                    py::return_value_policy::reference_internal,
+                    py::keep_alive<0, 1>())
 
                 ;
         }
-- 
2.43.0


From 2f0849f2bf3fbfa2f48d60cbe14da15e395e0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 24/75] fix: adding object arrays in Python handles arrays of
 IDs and shapes that are not contiguous

---
 source/data_model/python/source/different_shape/value.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/different_shape/value.cpp b/source/data_model/python/source/different_shape/value.cpp
index 07206d3..e49e4ea 100644
--- a/source/data_model/python/source/different_shape/value.cpp
+++ b/source/data_model/python/source/different_shape/value.cpp
@@ -29,8 +29,10 @@ namespace lue {
                     .def(
                         "expand",
                         [](Value& value,
-                           py::array_t<ID> const& ids,
-                           py::array_t<hdf5::Shape::value_type> const& shapes) -> Value&
+                           py::array_t<ID, py::array::c_style | py::array::forcecast> const& ids,
+                           py::array_t<
+                               hdf5::Shape::value_type,
+                               py::array::c_style | py::array::forcecast> const& shapes) -> Value&
                         {
                             if (ids.ndim() != 1)
                             {
-- 
2.43.0


From 5c39cbfea2716ae4f13a0727a6a2654f65972fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 25/75] fix: durations of weak scalability experiments are
 exported next to the number of workers they belong to

---
 .../scalability/command/scalability/query/export.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/quality_assurance/scalability/command/scalability/query/export.py b/source/quality_assurance/scalability/command/scalability/query/export.py
index 2789dcf..75d2632 100644
--- a/source/quality_assurance/scalability/command/scalability/query/export.py
+++ b/source/quality_assurance/scalability/command/scalability/query/export.py
@@ -153,7 +153,7 @@ def export_duration_weak_scalability(dataset: ldm.Dataset, csv_writer) -> None:
         )
 
         lue_scaling = dataset.benchmark.scaling
-        duration = measurement_property_set.duration.value[:]
+        duration = measurement_property_set.duration.value[:][sort_idxs]
         relative_efficiency = lue_scaling.relative_efficiency.value[:][sort_idxs]
 
         for idx, nr_workers_ in enumerate(nr_workers):
-- 
2.43.0


From d155991a7191a6bc82639d6f5ebc7626019fc3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 26/75] fix: shapes used in scalability experiments start at
 the minimum shape and are as large as possible

---
 .../command/scalability/experiment/shape.py   | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/shape.py b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
index 0f5a859..0f4a8b2 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/shape.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
@@ -2,6 +2,22 @@ import math
 from functools import reduce
 
 
+def largest_extent(nr_elements, rank):
+    """
+    Return the largest whole number which to the power rank is not larger than nr_elements
+    """
+    extent = int(math.floor(math.pow(nr_elements, 1.0 / rank)))
+
+    # Floating point rounding can result in the wrong whole number
+    while extent**rank > nr_elements:
+        extent -= 1
+
+    while (extent + 1) ** rank <= nr_elements:
+        extent += 1
+
+    return extent
+
+
 def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     """
     Determine a maximum array shape to use in scaling experiments, given the
@@ -19,11 +35,8 @@ def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     assert size_of_element > 0
     assert nr_nodes > 0
 
-    nr_elements = float(nr_nodes * memory_available) / size_of_element
-    elements_per_array = nr_elements / nr_arrays
-    elements_per_dimension = math.pow(elements_per_array, 1.0 / rank)
-
-    elements_per_dimension = int(math.floor(elements_per_dimension))
+    elements_per_array = (nr_nodes * memory_available) // (size_of_element * nr_arrays)
+    elements_per_dimension = largest_extent(elements_per_array, rank)
 
     return rank * (elements_per_dimension,)
 
@@ -116,15 +129,14 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
     def nr_elements(shape):
         return reduce(lambda e1, e2: e1 * e2, shape)
 
-    def shape(nr_elements, normalized_shape):
-        rank = len(normalized_shape)
-
-        nr_elements_per_dimension = nr_elements ** (1.0 / rank)
+    rank = len(min_shape)
 
+    def shape(size):
+        # All extents are scaled by the same factor, so the number of elements scales by size / sizes[0]
         return tuple(
             [
-                int(math.floor(nr_elements_per_dimension * extent))
-                for extent in normalized_shape
+                largest_extent(extent**rank * size // sizes[0], rank)
+                for extent in min_shape
             ]
         )
 
@@ -152,8 +164,7 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
         while multiplier * sizes[-1] <= max_nr_elements:
             sizes.append(multiplier * sizes[-1])
 
-    normalized_shape = tuple([float(extent) / max(min_shape) for extent in min_shape])
-    shapes = [shape(size, normalized_shape) for size in sizes]
+    shapes = [shape(size) for size in sizes]
 
     assert len(shapes) == 0 or nr_elements(shapes[-1]) <= max_nr_elements, (
         "{}, {}".format(shapes, max_nr_elements)
-- 
2.43.0


From 26659de7b6d83625a4592d8b9e29edfcd121dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 27/75] fix: an error is reported if the results of an
 experiment cannot be written

---
 source/quality_assurance/cxx/source/scalability/io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/quality_assurance/cxx/source/scalability/io.cpp b/source/quality_assurance/cxx/source/scalability/io.cpp
index bed340c..49e1fbe 100644
--- a/source/quality_assurance/cxx/source/scalability/io.cpp
+++ b/source/quality_assurance/cxx/source/scalability/io.cpp
@@ -100,6 +100,12 @@ namespace lue::qa {
         }
 
         stream << to_json(experiment);
+        stream.close();
+
+        if (!stream)
+        {
+            throw std::runtime_error("Results could not be written to file " + pathname);
+        }
     }
 
 }  // namespace lue::qa
-- 
2.43.0


From 777563e54fd5f70c8c130b2cf90ad0eb16b06dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 28/75] fix: descriptions of scalability experiments are part
 of their settings

---
 .../scalability/command/scalability/experiment/experiment.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
index 8fb357b..c22d218 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
@@ -45,6 +45,7 @@ class Experiment(object):
 
     def to_json(self):
         result = {
+            "description": self.description,
             "command_pathname": self.command_pathname,
             "command_arguments": self.command_arguments,
             # "nr_time_steps": self.nr_time_steps,
-- 
2.43.0


From 7e762be6dac30408aaa7a11d9b609ed456cf36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 29/75] fix: partition shape experiments using the cores of a
 NUMA node can be scheduled by SLURM

---
 .../scalability/command/scalability/experiment/job.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/job.py b/source/quality_assurance/scalability/command/scalability/experiment/job.py
index f9ed5da..553ff94 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/job.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/job.py
@@ -185,7 +185,8 @@ def memory_requirements(
     binding = ""
 
     if benchmark.worker.type == "thread":
-        assert nr_tasks == 1, nr_tasks
+        # Either a single locality is reserved, or all localities of a whole cluster node
+        assert nr_tasks in [1, cluster.cluster_node.nr_numa_nodes], nr_tasks
 
         if benchmark.locality_per == "numa_node":
             amount = cluster.cluster_node.package.numa_node.memory
-- 
2.43.0


From 12a742933e4e52458445964547bd55f2be4c7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 30/75] fix: rasters that are larger than a block are
 translated as a whole

---
 .../translate/source/format/gdal.cpp          | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 1e0d2c7..6ed53ca 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -28,7 +28,7 @@ namespace lue::utility {
             block_size_x = std::min(block_size_x, nr_cols);
             block_size_y = std::min(block_size_y, nr_rows);
 
-            return {{nr_cols, nr_rows}, {block_size_x, block_size_y}};
+            return {{nr_rows, nr_cols}, {block_size_y, block_size_x}};
         }
 
 
@@ -197,8 +197,9 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                gdal::Shape const shape_in_valid_cells = blocks.shape_in_valid_cells({block_y, block_x});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] = shape_in_valid_cells;
+                gdal::Offset const band_offset{block_y * block_shape[0], block_x * block_shape[1]};
 
 
                 // hdf5::Shape const shape = {
@@ -209,8 +210,8 @@ namespace lue::utility {
                 hdf5::Offset offset{
                     time_point_idx,
                     time_step_idx,
-                    static_cast<hdf5::Offset::value_type>(block_y * block_shape[0]),
-                    static_cast<hdf5::Offset::value_type>(block_x * block_shape[1])};
+                    static_cast<hdf5::Offset::value_type>(band_offset[0]),
+                    static_cast<hdf5::Offset::value_type>(band_offset[1])};
                 hdf5::Count count{
                     1,
                     1,
@@ -219,7 +220,8 @@ namespace lue::utility {
                 hdf5::Hyperslab const hyperslab{offset, count};
 
                 value.read(memory_datatype, hyperslab, values.data());
-                raster_band.write_block({block_y, block_x}, values.data());
+                raster_band.write(
+                    band_offset, shape_in_valid_cells, gdal::data_type_v<T>, values.data());
             }
         }
     }
@@ -297,19 +299,21 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                gdal::Shape const shape_in_valid_cells = blocks.shape_in_valid_cells({block_y, block_x});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] = shape_in_valid_cells;
+                gdal::Offset const band_offset{block_y * block_shape[0], block_x * block_shape[1]};
 
                 hdf5::Offset offset{
-                    static_cast<hdf5::Offset::value_type>(block_y * block_shape[0]),
-                    static_cast<hdf5::Offset::value_type>(block_x * block_shape[1])};
+                    static_cast<hdf5::Offset::value_type>(band_offset[0]),
+                    static_cast<hdf5::Offset::value_type>(band_offset[1])};
                 hdf5::Count count{
                     static_cast<hdf5::Count::value_type>(nr_valid_cells_y),
                     static_cast<hdf5::Count::value_type>(nr_valid_cells_x)};
                 hdf5::Hyperslab const hyperslab{offset, count};
 
                 array.read(memory_datatype, hyperslab, values.data());
-                raster_band.write_block({block_y, block_x}, values.data());
+                raster_band.write(
+                    band_offset, shape_in_valid_cells, gdal::data_type_v<T>, values.data());
             }
         }
     }
@@ -855,18 +859,20 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                gdal::Shape const shape_in_valid_cells = blocks.shape_in_valid_cells({block_y, block_x});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] = shape_in_valid_cells;
+                gdal::Offset const band_offset{block_y * block_shape[0], block_x * block_shape[1]};
 
                 hdf5::Offset offset{
-                    static_cast<hdf5::Offset::value_type>(block_y * block_shape[0]),
-                    static_cast<hdf5::Offset::value_type>(block_x * block_shape[1])};
+                    static_cast<hdf5::Offset::value_type>(band_offset[0]),
+                    static_cast<hdf5::Offset::value_type>(band_offset[1])};
                 hdf5::Count count{
                     static_cast<hdf5::Count::value_type>(nr_valid_cells_y),
                     static_cast<hdf5::Count::value_type>(nr_valid_cells_x)};
                 hdf5::Hyperslab hyperslab{offset, count};
 
-                gdal_raster_band.read_block({block_y, block_x}, values.data());
+                gdal_raster_band.read(
+                    band_offset, shape_in_valid_cells, gdal::data_type_v<T>, values.data());
                 hdf5::Shape const shape = {
                     static_cast<hdf5::Shape::value_type>(nr_valid_cells_x * nr_valid_cells_y)};
                 auto memory_dataspace = hdf5::create_dataspace(shape);
-- 
2.43.0


From f667b67485aa2df8cbab600bb712650fb4d851fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 31/75] fix: layers with 8-bit signed integers can be exported
 to rasters

---
 source/data_model/translate/source/format/gdal.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 6ed53ca..925c0df 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -239,6 +239,12 @@ namespace lue::utility {
         {
             lue_to_gdal<std::uint8_t>(value, time_point_idx, time_step_idx, raster_band);
         }
+#if LUE_GDAL_SUPPORTS_8BIT_SIGNED_INTEGERS
+        else if (memory_datatype == hdf5::native_int8)
+        {
+            lue_to_gdal<std::int8_t>(value, time_point_idx, time_step_idx, raster_band);
+        }
+#endif
         else if (memory_datatype == hdf5::native_uint16)
         {
             lue_to_gdal<std::uint16_t>(value, time_point_idx, time_step_idx, raster_band);
@@ -327,6 +333,12 @@ namespace lue::utility {
         {
             lue_to_gdal<std::uint8_t>(array, raster_band);
         }
+#if LUE_GDAL_SUPPORTS_8BIT_SIGNED_INTEGERS
+        else if (memory_datatype == hdf5::native_int8)
+        {
+            lue_to_gdal<std::int8_t>(array, raster_band);
+        }
+#endif
         else if (memory_datatype == hdf5::native_uint16)
         {
             lue_to_gdal<std::uint16_t>(array, raster_band);
-- 
2.43.0


From c9a33abadb642733984c128b97df305fa08e46f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 32/75] fix: space boxes that are read from rasters have their
 south below their north

---
 source/data_model/translate/source/format/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index d31476c..2219b8b 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -126,7 +126,7 @@ namespace lue::utility {
             auto const [west, cell_width, row_rotation, north, col_rotation, cell_height] =
                 raster.geo_transform();
             double const east = west + (nr_cols * cell_width);
-            double const south = north - (nr_rows * cell_height);
+            double const south = north - (nr_rows * std::abs(cell_height));
 
             std::array<double, 4> space_box{west, south, east, north};
 
-- 
2.43.0


From ab489d9f43d5fc608f9a7b5002646a7595267789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 33/75] fix: all bands listed in the metadata are exported to a
 raster

---
 .../translate/source/format/gdal.cpp          | 57 +++++++++----------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 925c0df..816e99d 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -410,19 +410,30 @@ namespace lue::utility {
 
             RasterView raster_view{&dataset, phenomenon_name, property_set_name};
 
-            auto it = bands_json.begin();
-            auto const property_name = json::string(*it, "name");
+            // Each band contains the values of a layer
+            std::vector<RasterLayer> layers;
 
-            if (!raster_view.contains(property_name))
+            for (auto const& band_json : bands_json)
             {
-                throw std::runtime_error(
-                    std::format(
-                        "Constant raster layer named {} is not part of property_set {}",
-                        property_name,
-                        property_set_name));
+                auto const property_name = json::string(band_json, "name");
+
+                if (!raster_view.contains(property_name))
+                {
+                    throw std::runtime_error(
+                        std::format(
+                            "Constant raster layer named {} is not part of property_set {}",
+                            property_name,
+                            property_set_name));
+                }
+
+                layers.push_back(raster_view.layer(property_name));
+
+                if (layers.back().memory_datatype() != layers.front().memory_datatype())
+                {
+                    throw std::runtime_error("Raster layers have different datatypes");
+                }
             }
 
-            RasterLayer layer{raster_view.layer(property_name)};
             auto const& space_box{raster_view.space_box()};
             gdal::Shape const raster_shape{hdf5_shape_to_gdal_shape(raster_view.grid_shape())};
             auto const [nr_rows, nr_cols] = raster_shape;
@@ -458,32 +469,18 @@ namespace lue::utility {
                 raster_name,
                 raster_shape,
                 nr_bands,
-                memory_data_type_to_gdal_data_type(layer.memory_datatype()))};
+                memory_data_type_to_gdal_data_type(layers.front().memory_datatype()))};
 
             raster.set_geo_transform(geo_transform);
 
             gdal::Count band_nr{1};
-            gdal::Raster::Band raster_band{raster.band(band_nr)};
-            lue_to_gdal(layer, raster_band);
 
-
-            // TODO
-            // for (; it != bands_json.end(); ++it, ++band_nr)
-            // {
-            //     auto const property_name = json::string(*it, "name");
-
-            //     if (!raster_view.contains(property_name))
-            //     {
-            //         throw std::runtime_error(std::format(
-            //             "Constant raster layer named {} is not part of property_set {}",
-            //             property_name,
-            //             property_set_name));
-            //     }
-
-            //     gdal::Raster::Band raster_band{raster.band(band_nr)};
-
-            //     lue_to_gdal(layer, raster_band);
-            // }
+            for (auto const& layer : layers)
+            {
+                gdal::Raster::Band raster_band{raster.band(band_nr)};
+                lue_to_gdal(layer, raster_band);
+                ++band_nr;
+            }
         }
         // If the variable raster view finds a raster layer with the property
         // name requested, export it to a stack of GDAL rasters
-- 
2.43.0


From d0f9855135e411a4a1c4d03479c3c3cb28ee6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 34/75] fix: rasters with different shapes are not imported
 into the same property-set

---
 source/data_model/translate/source/format/gdal.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 816e99d..475524e 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -1055,6 +1055,15 @@ namespace lue::utility {
                           &dataset, phenomenon_name, property_set_name, grid_shape, space_box)
                     : ldm::constant::open_raster_view(&dataset, phenomenon_name, property_set_name)};
 
+            if (raster_view.grid_shape() != grid_shape)
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Shape of raster {} does not match the shape of the rasters in property_set {}",
+                        gdal_dataset_name,
+                        property_set_name));
+            }
+
             // Add raster layers from input raster(s)
 
             auto const bands_json = json::object(raster_json, "bands");
-- 
2.43.0


From 929d0168f90f19f2f47616a6719ecbb8cbb89619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 35/75] fix: variable properties of all supported datatypes can
 be imported from JSON

---
 source/data_model/translate/source/format/json.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index 2219b8b..085d6d2 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -408,9 +408,6 @@ namespace lue::utility {
         {
             std::string const name = property_json.at("name");
 
-            [[maybe_unused]] std::string const datatype_json = property_json.at("datatype");
-            assert(datatype_json == "uint64");
-
             auto const datatype = hdf5::Datatype{hdf5::NativeDatatypeTraits<Datatype>::type_id()};
 
             hdf5::Shape shape;
@@ -575,9 +572,6 @@ namespace lue::utility {
             std::string const name = property_json.at("name");
             data_model::Rank const rank = property_json.at("rank");
 
-            [[maybe_unused]] std::string const datatype_json = property_json.at("datatype");
-            assert(datatype_json == "uint64");
-
             auto const datatype = hdf5::Datatype{hdf5::NativeDatatypeTraits<Datatype>::type_id()};
 
             auto& property =
-- 
2.43.0


From 359ef2b73e494db39c59ab222cbd2eaab7e47c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 36/75] fix: values of environment variables are not expanded
 themselves

---
 source/data_model/utility/source/environment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/data_model/utility/source/environment.cpp b/source/data_model/utility/source/environment.cpp
index 7ad74db..cfa5b42 100644
--- a/source/data_model/utility/source/environment.cpp
+++ b/source/data_model/utility/source/environment.cpp
@@ -30,6 +30,9 @@ namespace lue {
 
             variable_value = variable_value_ptr != nullptr ? std::string{variable_value_ptr} : std::string{};
 
+            // Index of first character of the value that is about to be inserted
+            idx = std::distance(string.cbegin(), full_match.first);
+
             // Replace variable name with, possibly empty, value
             string.replace(full_match.first, full_match.second, variable_value);
 
-- 
2.43.0


From a4fac9bbd63b05b474fe07e941b0567463c74921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 37/75] fix: inline values of variable properties with
 different shapes are imported from JSON

---
 source/data_model/translate/source/format/json.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index 085d6d2..f37807a 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -530,12 +530,12 @@ namespace lue::utility {
                     std::string const dataset_name = expand_environment_variables(a_value_json.at("dataset"));
                     shape = read_gdal_raster(dataset_name, values);
                 }
-                // else {
-                //     // Value is stored inline
-                //     // BOGUS?
-                //     values = a_value_json.get<decltype(values)>();
-                //     shape = a_value_json.at("shape");
-                // }
+                else
+                {
+                    // Value is stored inline
+                    shape = a_value_json.at("shape");
+                    values = a_value_json.at("value").get<decltype(values)>();
+                }
 
                 assert(!value.exists(id));
 
-- 
2.43.0


From 16b4b84184fe491e36223a1fe2afe9ade8adca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 38/75] fix: variable properties with unsupported datatypes are
 not silently skipped when importing JSON

---
 source/data_model/translate/source/format/json.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index f37807a..3f9999f 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -808,8 +808,12 @@ namespace lue::utility {
                                         add_different_shape_constant_shape_property<Datatype>(
                                             property_json, properties.collection<Properties>());
                                     }
-
-                                    // TODO(KDJ) More value types
+                                    else
+                                    {
+                                        // TODO(KDJ) More value types
+                                        throw std::runtime_error(
+                                            std::format("Datatype {} not supported yet", datatype_json));
+                                    }
 
                                     break;
                                 }
-- 
2.43.0


From 48c95cd03ec268b59a27c40d9397eebcaebe71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:50 +0000
Subject: [PATCH 39/75] fix: string properties with more than one value can be
 imported from JSON

---
 .../translate/source/format/json.cpp          | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index 3f9999f..1a042b6 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -53,6 +53,32 @@ namespace lue::utility {
         }
 
 
+        /*!
+            @brief      Return the elements in a form that can be passed to the HDF5 API
+        */
+        template<typename Element>
+        auto hdf5_elements(std::vector<Element> const& values) -> std::vector<Element> const&
+        {
+            return values;
+        }
+
+
+        /*!
+            @overload
+
+            HDF5 represents a variable length string by a pointer to its characters
+        */
+        auto hdf5_elements(std::vector<std::string> const& values) -> std::vector<char const*>
+        {
+            std::vector<char const*> result(values.size());
+
+            std::ranges::transform(
+                values, result.begin(), [](std::string const& value) -> char const* { return value.c_str(); });
+
+            return result;
+        }
+
+
         void add_object_tracker(::json const& object_tracker_json, data_model::ObjectTracker& object_tracker)
         {
             if (contains(object_tracker_json, "active_set_index"))
@@ -276,7 +302,7 @@ namespace lue::utility {
             auto const nr_object_arrays = values.size() / nr_elements_in_object_array;
             data_model::IndexRange const index_range{begin, begin + nr_object_arrays};
             property.value().expand(nr_object_arrays);
-            property.value().write(index_range, values.data());
+            property.value().write(index_range, hdf5_elements(values).data());
 
 
             // TODO(KDJ)
@@ -325,7 +351,7 @@ namespace lue::utility {
                 // assert(!property.value().exists(id));
 
                 property.value().expand(1, &id, &shape);
-                property.value()[id].write(values.data());
+                property.value()[id].write(hdf5_elements(values).data());
             }
 
             if (contains(property_json, "space_discretization"))
-- 
2.43.0


From fd19f3e3cef614fe85681238051405aa646de94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 40/75] fix: dataset of a property that is part of a universe
 can be found

---
 source/data_model/cxx/include/lue/navigate.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/data_model/cxx/include/lue/navigate.hpp b/source/data_model/cxx/include/lue/navigate.hpp
index a0b366c..01083e6 100644
--- a/source/data_model/cxx/include/lue/navigate.hpp
+++ b/source/data_model/cxx/include/lue/navigate.hpp
@@ -34,7 +34,15 @@ namespace lue::data_model {
     template<typename Property>
     auto dataset_group(Property const& property) -> hdf5::Group
     {
-        return phenomena_group(property).parent();
+        auto group = phenomena_group(property).parent();
+
+        if (group.id().pathname() != "/")
+        {
+            // The phenomenon is part of a universe
+            group = group.parent().parent();
+        }
+
+        return group;
     }
 
 
-- 
2.43.0


From c2ce544791d1e03525d8c3f825c5d5e6a320d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 41/75] fix: names are escaped in labels of nodes in DOT graphs

---
 .../translate/source/format/dot.cpp           | 56 +++++++++++++++++--
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/source/data_model/translate/source/format/dot.cpp b/source/data_model/translate/source/format/dot.cpp
index 117d343..76c04df 100644
--- a/source/data_model/translate/source/format/dot.cpp
+++ b/source/data_model/translate/source/format/dot.cpp
@@ -73,6 +73,50 @@ namespace lue {
         }
 
 
+        /*!
+            @brief      Return @a text, formatted for use in an HTML-like label
+        */
+        auto escape_html(std::string const& text) -> std::string
+        {
+            std::string result;
+
+            for (char const character : text)
+            {
+                switch (character)
+                {
+                    case '&':
+                    {
+                        result += "&amp;";
+                        break;
+                    }
+                    case '<':
+                    {
+                        result += "&lt;";
+                        break;
+                    }
+                    case '>':
+                    {
+                        result += "&gt;";
+                        break;
+                    }
+                    default:
+                    {
+                        result += character;
+                        break;
+                    }
+                }
+            }
+
+            return result;
+        }
+
+
+        auto html_name(hdf5::PrimaryDataObject const& data_object) -> std::string
+        {
+            return escape_html(data_object.id().name());
+        }
+
+
         // Shapes are based on the HDF5 object type ------------------------------------
         auto shape(hdf5::Group const& /* group */, Metadata const& metadata) -> std::string
         {
@@ -119,7 +163,7 @@ subgraph cluster_{} {{
                 }
 
                 Subgraph(std::ostream& stream, hdf5::Identifier const& id):
-                    Subgraph{stream, id, id.name()}
+                    Subgraph{stream, id, escape_html(id.name())}
 
                 {
                 }
@@ -428,7 +472,7 @@ subgraph cluster_{} {{
     ];
 )",
             utility::dot_name(property),
-            property.id().name(),
+            utility::html_name(property),
             shape(property, metadata),
             metadata.string(utility::JSONPointer("/lue/property/fillcolor"), utility::fillcolor(property)));
 
@@ -749,7 +793,7 @@ subgraph cluster_{} {{
     ];
 )",
             utility::dot_name(property_set),
-            property_set.id().name(),
+            utility::html_name(property_set),
             shape(property_set, metadata),
             metadata.string(
                 utility::JSONPointer("/lue/property_set/fillcolor"), utility::fillcolor(property_set)));
@@ -853,7 +897,7 @@ subgraph cluster_{} {{
     ];
 )",
             utility::dot_name(phenomenon),
-            phenomenon.id().name(),
+            utility::html_name(phenomenon),
             shape(phenomenon, metadata),
             metadata.string(
                 utility::JSONPointer("/lue/phenomenon/fillcolor"), utility::fillcolor(phenomenon)));
@@ -894,7 +938,7 @@ subgraph cluster_{} {{
     */
     void to_dot(data_model::Universe& universe, std::ostream& stream, utility::Metadata const& metadata)
     {
-        utility::Subgraph graph(stream, universe.id(), universe.id().name());
+        utility::Subgraph graph(stream, universe.id(), utility::html_name(universe));
 
         auto& phenomena = universe.phenomena();
 
@@ -918,7 +962,7 @@ subgraph cluster_{} {{
     */
     void to_dot(data_model::Dataset& dataset, std::ostream& stream, utility::Metadata const& metadata)
     {
-        utility::Subgraph graph(stream, dataset.id(), dataset.pathname());
+        utility::Subgraph graph(stream, dataset.id(), utility::escape_html(dataset.pathname()));
 
         auto& universes = dataset.universes();
 
-- 
2.43.0


From 97bcf2ae1c8d8ed7ac72bf9499e2234c24275bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 42/75] fix: rasters can be added to an existing dataset

---
 source/data_model/translate/source/format/gdal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 475524e..832cd80 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -999,7 +999,7 @@ namespace lue::utility {
                 throw std::runtime_error(std::format("Dataset {} already exists", lue_dataset_name));
             }
 
-            return ldm::open_dataset(lue_dataset_name);
+            return ldm::open_dataset(lue_dataset_name, H5F_ACC_RDWR);
         };
 
         ldm::Dataset dataset{!ldm::dataset_exists(lue_dataset_name) ? create_dataset() : open_dataset()};
-- 
2.43.0


From 3fdff3039bab5d9c452486e16c3ac73882fe8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 43/75] fix: Shapefiles per time cell are stored in the
 directory requested

---
 source/data_model/translate/source/format/gdal_vector.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/data_model/translate/source/format/gdal_vector.cpp b/source/data_model/translate/source/format/gdal_vector.cpp
index e1c3e9e..a43c420 100644
--- a/source/data_model/translate/source/format/gdal_vector.cpp
+++ b/source/data_model/translate/source/format/gdal_vector.cpp
@@ -20,9 +20,9 @@ namespace lue::utility {
         }
 
 
-        auto stem(std::string const& pathname) -> std::string
+        auto without_extension(std::string const& pathname) -> std::string
         {
-            return std::filesystem::path(pathname).stem().string();
+            return std::filesystem::path(pathname).replace_extension().string();
         }
 
 
@@ -172,9 +172,8 @@ namespace lue::utility {
             if (has_extension(shapefile_name))
             {
                 assert(extension(shapefile_name) == ".shp");
-                shapefile_name = stem(shapefile_name);
+                shapefile_name = without_extension(shapefile_name);
             }
-            assert(!has_extension(shapefile_name));
 
             auto gdal_dataset = gdal::create_dataset("ESRI Shapefile", shapefile_name);
 
-- 
2.43.0


From 973a7ba23aae4ee659892d219845c1a13ad66d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 44/75] fix: space boxes with a rank other than two are not
 written to Shapefiles

---
 .../data_model/translate/source/format/gdal_vector.cpp   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/data_model/translate/source/format/gdal_vector.cpp b/source/data_model/translate/source/format/gdal_vector.cpp
index a43c420..f03014f 100644
--- a/source/data_model/translate/source/format/gdal_vector.cpp
+++ b/source/data_model/translate/source/format/gdal_vector.cpp
@@ -130,6 +130,15 @@ namespace lue::utility {
         {
             // Write a Shapefile containing space boxes
 
+            // Verify input is correct
+            if (lue_space_box.array_shape()[0] != 4)
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Expected space boxes of rank 2, but got boxes of rank {}",
+                        lue_space_box.array_shape()[0] / 2));
+            }
+
             // Create Shapefile and write information to it (possibly nothing)
             auto gdal_dataset = gdal::create_dataset("ESRI Shapefile", shapefile_name);
 
-- 
2.43.0


From 023a7a3fcd4d89974a3333b6fe43a0ca6af90c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 45/75] fix: mobile points without time cells can be translated
 to Shapefiles

---
 source/data_model/translate/source/format/gdal_vector.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/data_model/translate/source/format/gdal_vector.cpp b/source/data_model/translate/source/format/gdal_vector.cpp
index f03014f..5cd46b1 100644
--- a/source/data_model/translate/source/format/gdal_vector.cpp
+++ b/source/data_model/translate/source/format/gdal_vector.cpp
@@ -228,7 +228,11 @@ namespace lue::utility {
                     set_idxs.begin() + 1,  // Second input range
                     set_sizes.begin(),     // Destination range
                     [](auto const idx1, auto const idx2) -> auto { return idx2 - idx1; });
-                max_size_active_set = *std::ranges::max_element(set_sizes);
+
+                if (!set_sizes.empty())
+                {
+                    max_size_active_set = *std::ranges::max_element(set_sizes);
+                }
             }
 
             std::vector<double> space_points;
-- 
2.43.0


From e06fe3eb6492ac8534f47b52ab228c47976794a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 46/75] fix: floating point values just above the range of an
 integer type are cast to no-data

---
 .../lue/framework/algorithm/value_policies/cast.hpp      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp
index 859ebbb..3d83a47 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/cast.hpp
@@ -114,9 +114,14 @@ namespace lue {
                     if constexpr (std::is_floating_point_v<InputElement> && std::is_integral_v<OutputElement>)
                     {
                         // float -> int / unsigned int
+                        // The largest output value may not be representable by the input element
+                        // type, in which case it is rounded up. One more than the largest output
+                        // value is a power of two, which can be represented.
+                        constexpr OutputElement max{std::numeric_limits<OutputElement>::max()};
+
                         return argument >= InputElement{std::numeric_limits<OutputElement>::min()} &&
-                               argument <=
-                                   static_cast<InputElement>(std::numeric_limits<OutputElement>::max());
+                               argument <= static_cast<InputElement>(max) &&
+                               argument < InputElement{2} * static_cast<InputElement>(max / 2 + 1);
                     }
 
                     return true;
-- 
2.43.0


From d60ac58069f46c729d98d324cb1d7d4e71cc8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 47/75] fix: the absolute value of the lowest floating point
 value is valid

---
 .../include/lue/framework/algorithm/value_policies/abs.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp
index 253423c..d944ae8 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/abs.hpp
@@ -14,7 +14,7 @@ namespace lue {
                 constexpr static auto within_range(
                     Element const& argument, [[maybe_unused]] Element const& result) -> bool
                 {
-                    if constexpr (std::is_signed_v<Element>)
+                    if constexpr (std::is_integral_v<Element>)
                     {
                         // In 2's complement systems, the absolute value of the smallest integer
                         // value cannot be represented: abs(min_int) == max_int + 1
-- 
2.43.0


From 305263241a73082876bec592b81cf351c87e4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 48/75] fix: array_like compiles again

A partitioned array is created with a shared pointer to its localities since
these are shared between arrays. This function still passed the localities
themselves and could not be instantiated.
---
 .../algorithm/include/lue/framework/algorithm/array_like.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp b/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
index 43a4c77..52799e9 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/array_like.hpp
@@ -119,7 +119,7 @@ namespace lue {
                 action, localities[partition_idx], policies, input_partitions[partition_idx], fill_value);
         }
 
-        return OutputArray{shape(input_array), localities, std::move(output_partitions)};
+        return {input_array, std::move(output_partitions)};
     }
 
 
-- 
2.43.0


From 7f9a541cfd9cd22121eb640783beff9419746413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:55 +0000
Subject: [PATCH 49/75] fix: cell indices are offset by the extent of the
 partitions along the dimension

When determining the indices of the rows, the offset of a partition was
based on the number of columns in a partition, and the other way around.
This gives wrong indices if partitions are not square.
---
 .../include/lue/framework/algorithm/definition/cell_index.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
index 2690cd7..1de9d0a 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
@@ -72,7 +72,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<1>(partition_shape);
+                            count = std::get<0>(partition_shape);
                         }
                         else if (dimension_idx == 1)
                         {
@@ -96,7 +96,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<0>(partition_shape);
+                            count = std::get<1>(partition_shape);
                         }
 
                         IndexPartition partition{hpx::find_here(), offset, std::move(index_data)};
-- 
2.43.0


From 538dc01aa0804cec893660bcd7abcdcbc31c7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:49 +0000
Subject: [PATCH 50/75] fix: ranges take the extent of each partition into
 account

The start value of a partition was based on the number of columns of the
first partition in the same row of partitions. Partitions along the border
of the array can have another shape.
---
 .../algorithm/include/lue/framework/algorithm/range.hpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
index d030387..c797e32 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
@@ -149,11 +149,12 @@ namespace lue {
 
                         for (Index idx0 = 0; idx0 < nr_partitions0; ++idx0)
                         {
-                            auto const [partition_nr_elements0, partition_nr_elements1] =
-                                partition_shapes_span[idx0, 0];
+                            Count const partition_nr_elements0{std::get<0>(partition_shapes_span[idx0, 0])};
 
                             for (Index idx1 = 0; idx1 < nr_partitions1; ++idx1)
                             {
+                                Count const partition_nr_elements1{
+                                    std::get<1>(partition_shapes_span[idx0, idx1])};
                                 InputPartition const& input_partition = partitions(idx0, idx1);
 
                                 lue_hpx_assert(input_partition.is_ready());
-- 
2.43.0


From fe928ac7e0043bcd7addc24ee1a958468b040709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 51/75] fix: downscaling uses the correct cells of source
 partitions that are larger

The last partitions along a dimension can be larger than the other ones. The
offset of the area to read from these was only correct in case the shape of the
target partition also differed from the shape of the other partitions.
---
 .../algorithm/definition/resample.hpp         | 32 +++++++------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
index 0e3e18c..0551628 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
@@ -234,27 +234,17 @@ namespace lue {
                     // contributes to the values of multiple target cells. Determine the offset and shape of
                     // the source cells that must be assigned to the cells in the target partition.
 
-                    Offset source_area_offset{
-                        (std::get<0>(target_partition_offset) / _count) % std::get<0>(_partition_shape),
-                        (std::get<1>(target_partition_offset) / _count) % std::get<1>(_partition_shape)};
-
-                    // Careful: in case of the last row and column, partition shapes may differ. Only in those
-                    // cases, we need to test the special situation that we need to query outside of the
-                    // normal partition bounds. For example, if the partition shape is (3, 3), then a last
-                    // partition in a row may have shape (3, 5). Without doing the following test, we would
-                    // copy the wrong source values (starting at offset (0, 0), while instead we should be
-                    // copying those starting at (0, 3).
-                    if (std::get<0>(target_partition_shape) != std::get<0>(_partition_shape) &&
-                        std::get<0>(source_area_offset) == 0)
-                    {
-                        std::get<0>(source_area_offset) = std::get<0>(_partition_shape);
-                    }
-
-                    if (std::get<1>(target_partition_shape) != std::get<1>(_partition_shape) &&
-                        std::get<1>(source_area_offset) == 0)
-                    {
-                        std::get<1>(source_area_offset) = std::get<1>(_partition_shape);
-                    }
+                    // Careful: the last source partition in a row or column may be larger than the other
+                    // ones. In that case, it is the source of more target partitions than the other ones,
+                    // and the offset can be larger than the extent of the first partition.
+                    auto const [source_partition_idx0, source_partition_idx1] =
+                        linear_idx_to_idxs(source_partition_idx, _partitions.shape());
+
+                    Offset const source_area_offset{
+                        (std::get<0>(target_partition_offset) / _count) -
+                            (source_partition_idx0 * std::get<0>(_partition_shape)),
+                        (std::get<1>(target_partition_offset) / _count) -
+                            (source_partition_idx1 * std::get<1>(_partition_shape))};
 
                     // To only thing the task needs to do is copy cells from the source area, starting at the
                     // offset, into the new partition, assigning source cell values to multiple target
-- 
2.43.0


From d6c724d53627c610706466cd36e6badb941bb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 52/75] fix: clumps that span many partitions are merged
 completely

Sets of identifiers of clumps that must be merged are merged in a single pass
over all pairs of sets. A union of two sets can share identifiers with a set
that was already visited, in which case parts of a clump kept different
identifiers.
---
 .../include/lue/framework/algorithm/definition/clump.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
index 35eb33e..b2e89b6 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
@@ -1819,6 +1819,10 @@ namespace lue {
                                                 global_clump_ids_updates.find(idx2) ==
                                                 global_clump_ids_updates.end());
                                             global_clump_ids_updates[idx2] = idx1;
+
+                                            // The union may intersect sets that have already been
+                                            // visited, and that didn't intersect the original set
+                                            idx2 = idx1;
                                         }
                                     }
                                 }
-- 
2.43.0


From b90612e6a0acfb8605e30de9aa53fffe37923688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 53/75] fix: make it possible to construct a framework array
 from iterators

The parameter hid the member function, so using this constructor did not compile.
---
 source/framework/core/include/lue/framework/core/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index 7c704e4..c4e759f 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -119,7 +119,7 @@ namespace lue {
             {
                 lue_hpx_assert(std::distance(begin, end) == _nr_elements);
 
-                std::move(begin, end, begin());
+                std::move(begin, end, this->begin());
             }
 
 
-- 
2.43.0


From 96e7c61241c525531ab8df81b23c945500fce13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 54/75] fix: keep the largest partition shape valid for arrays
 with small extents

Extents smaller than the number of partitions per dimension became zero.
---
 .../lue/framework/core/domain_decomposition.hpp      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
index ad3a7b5..71107b9 100644
--- a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
+++ b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
@@ -245,11 +245,21 @@ namespace lue {
         {
             if (nr_partitions < min_nr_partitions)
             {
-                extent /= nr_partitions_per_dimension;
+                extent = std::max(Index{1}, extent / nr_partitions_per_dimension);
                 nr_partitions += nr_partitions_per_dimension;
             }
         }
 
+        // Arrays with small extents cannot be divided the same number of times along each dimension. Divide
+        // the other dimensions further.
+        for (auto& extent : partition_shape)
+        {
+            if (nr_elements(shape_in_partitions(array_shape, partition_shape)) < min_nr_partitions)
+            {
+                extent = 1;
+            }
+        }
+
         lue_hpx_assert(nr_elements(partition_shape) > 0);
         lue_hpx_assert(nr_elements(shape_in_partitions(array_shape, partition_shape)) >= min_nr_partitions);
 
-- 
2.43.0


From 951a4a1f886d37b3a81f5adf8cf0be23c4edc6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 55/75] fix: do not let the default partition shape exceed the
 array

Large arrays with one small extent got square partitions that are larger than that extent.
---
 .../include/lue/framework/core/domain_decomposition.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
index 71107b9..b80b2c2 100644
--- a/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
+++ b/source/framework/core/include/lue/framework/core/domain_decomposition.hpp
@@ -358,6 +358,7 @@ namespace lue {
 
         Count dimension_size{};
         Shape<Index, rank> partition_shape{};
+        Count const min_array_dimension_extent{*std::min_element(array_shape.begin(), array_shape.end())};
 
         bool const not_enough_elements{array_size / nr_worker_threads < default_partition_size};
 
@@ -365,16 +366,15 @@ namespace lue {
         {
             // Shrink the partition. Try to end up with enough partitions to use all cores. It is OK if that
             // is not possible.
-            Count const min_array_dimension_extent{*std::min_element(array_shape.begin(), array_shape.end())};
-
             dimension_size = std::max(Count{1}, min_array_dimension_extent / nr_worker_threads);
         }
         else
         {
             // Try the default partition size. This should result in enough partitions to distribute over all
-            // cores.
+            // cores. Partitions don't extend beyond the array.
             dimension_size = std::max(
                 Count{1}, static_cast<Count>(std::floor(std::pow(default_partition_size, 1.0 / rank))));
+            dimension_size = std::min(dimension_size, min_array_dimension_extent);
         }
 
         partition_shape.fill(dimension_size);
-- 
2.43.0


From 0982c896b83d0038a556a748fba9306295c7c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 56/75] fix: allow for reshaping a framework array to an empty
 shape

The buffer of elements is kept, which violated an invariant.
---
 source/framework/core/include/lue/framework/core/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index c4e759f..90bb657 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -437,8 +437,8 @@ namespace lue {
                 lue_hpx_assert(lue::nr_elements(_shape) == _nr_elements);
                 lue_hpx_assert(static_cast<Count>(_span.size()) == _nr_elements);
                 lue_hpx_assert(_span.data_handle() == _elements.get());
-                lue_hpx_assert(
-                    (_nr_elements == 0 && data() == nullptr) || (_nr_elements > 0 && data() != nullptr));
+                // An empty array can still own a buffer, which can be used again
+                lue_hpx_assert(_nr_elements == 0 || data() != nullptr);
                 lue_hpx_assert(_nr_elements <= _buffer_size);
             }
 
-- 
2.43.0


From a433b938cceffead7cf219e4b346c36b2283e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 57/75] fix: update the shape of a framework array when
 elements are removed

Reshaping to the old shape afterwards was skipped.
---
 source/framework/core/include/lue/framework/core/array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index 90bb657..f8b2a16 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -279,11 +279,16 @@ namespace lue {
                 underlying buffer is not resized.
             */
             void remove(Iterator begin, Iterator end)
+                requires(rank == 1)
             {
                 lue_hpx_assert(std::distance(begin, end) <= _nr_elements);
 
                 std::move(end, this->end(), begin);
                 _nr_elements -= std::distance(begin, end);
+                _shape[0] = _nr_elements;
+                _span = Span{_elements.get(), _shape};
+
+                assert_invariants();
             }
 
 
-- 
2.43.0


From 8ec5044cba3e0330371001bc7ab961b6e1ac4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 58/75] fix: do not clear elements that are shared when
 assigning to a framework buffer

Move assignment cleared the collection that was replaced, also when other copies use it.
---
 .../partitioned_array/shared_buffer.hpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
index 0362be1..8458cde 100644
--- a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
+++ b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
@@ -95,14 +95,20 @@ namespace lue {
             */
             auto operator=(SharedBuffer&& other) noexcept -> SharedBuffer&
             {
-                // This class requires that a _ptr always points to a, possibly empty, collection of elements
+                // This class requires that a _ptr always points to a, possibly empty, collection of
+                // elements. The collection this instance points to until now may be shared with other
+                // instances, so it must not be cleared.
 
-                std::swap(other._ptr, _ptr);
-                assert_invariants();
+                if (this != &other)
+                {
+                    SharedBuffer buffer{std::move(other)};
 
-                other._ptr->clear();
-                other.assert_invariants();
-                lue_hpx_assert(other.size() == 0);
+                    std::swap(buffer._ptr, _ptr);
+                    assert_invariants();
+
+                    other.assert_invariants();
+                    lue_hpx_assert(other.size() == 0);
+                }
 
                 return *this;
             }
-- 
2.43.0


From 02f12a1b2f9c410c22195b9e86c1641156b7fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:31 +0000
Subject: [PATCH 59/75] fix: accept that a framework array is moved to itself

The array is left as it is, but was expected to be empty.
---
 source/framework/core/include/lue/framework/core/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index f8b2a16..3478fdd 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -187,10 +187,10 @@ namespace lue {
                     _span = Span{_elements.get(), _shape};
 
                     other.clear();
+                    other.assert_invariants();
+                    lue_hpx_assert(other.empty());
                 }
 
-                other.assert_invariants();
-                lue_hpx_assert(other.empty());
                 assert_invariants();
 
                 return *this;
-- 
2.43.0


From 4a0566e0239915cd351effce3c6311b9331a88d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 60/75] fix: keep the elements of a framework array when
 nothing is removed

Elements were moved to themselves, which loses the contents of strings, for example.
---
 source/framework/core/include/lue/framework/core/array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index 3478fdd..21f0c64 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -283,6 +283,11 @@ namespace lue {
             {
                 lue_hpx_assert(std::distance(begin, end) <= _nr_elements);
 
+                if (begin == end)
+                {
+                    return;  // Nothing to do. Elements must not be moved to themselves.
+                }
+
                 std::move(end, this->end(), begin);
                 _nr_elements -= std::distance(begin, end);
                 _shape[0] = _nr_elements;
-- 
2.43.0


From e8f2baaafef43c42b522caaad344885f3e06ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:57 +0000
Subject: [PATCH 61/75] fix: open per-time arrays of the same shape with the
 datatype in memory

---
 .../cxx/source/array/same_shape/variable_shape/value.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index 4c50fe0..b0be844 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -68,7 +68,7 @@ namespace lue::data_model::same_shape::variable_shape {
     {
         std::string const name{std::to_string(idx)};
 
-        return same_shape::Value{*this, name};
+        return same_shape::Value{*this, name, memory_datatype()};
     }
 
 
-- 
2.43.0


From 9045bd5511d3e41a6bb49997a2f753f7b1bc9a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:38 +0000
Subject: [PATCH 62/75] fix: aspect is the direction of descent, clockwise from
 the north

---
 .../framework/algorithm/definition/aspect.hpp | 35 ++++---------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
index 95f5506..8e9ae46 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/aspect.hpp
@@ -24,40 +24,19 @@ namespace lue {
                 OutputElement operator()(
                     InputElement const gradient_x, InputElement const gradient_y) const noexcept
                 {
+                    // The gradients are positive when the surface rises towards the east (x) and towards the
+                    // south (y). Aspect is the direction of descent, clockwise from the north.
                     OutputElement result{};
 
-                    if (gradient_x == 0)
+                    if (gradient_x != 0 || gradient_y != 0)
                     {
-                        if (gradient_y < 0)
-                        {
-                            // Dip to the north
-                            result = 0;
-                        }
-                        else if (gradient_y > 0)
-                        {
-                            // Dip to the south
-                            result = pi<OutputElement>;
-                        }
-                    }
-                    else if (gradient_y == 0)
-                    {
-                        if (gradient_x < 0)
-                        {
-                            // Dip to the west
-                            result = pi<OutputElement> + half_pi<OutputElement>;
-                        }
-                        else if (gradient_x > 0)
+                        result = std::atan2(-gradient_x, gradient_y);
+
+                        if (result < 0)
                         {
-                            // Dip to the east
-                            result = half_pi<OutputElement>;
+                            result += two_pi<OutputElement>;
                         }
                     }
-                    else
-                    {
-                        result = std::atan(gradient_x / gradient_y) +
-                                 (gradient_x < 0 ? pi<OutputElement> + half_pi<OutputElement>
-                                                 : half_pi<OutputElement>);
-                    }
 
                     HPX_ASSERT(std::isnan(result) || (result >= 0 && result <= two_pi<OutputElement>));
 
-- 
2.43.0


From f0fcea21add8996d3b619186ea7709490c41b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 63/75] fix: flow directions at the border do not depend on the
 elevation datum

---
 .../framework/algorithm/default_policies/d8_flow_direction.hpp  | 2 +-
 .../framework/algorithm/value_policies/d8_flow_direction.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp
index ff23579..5076896 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/d8_flow_direction.hpp
@@ -34,7 +34,7 @@ namespace lue {
                         DomainPolicyT<PoliciesBase>{},
                         FlowDirectionOutputPolicies{},
                         ElevationInputPolicies{FillHaloWithConstantValue<ElevationElement>{
-                            std::numeric_limits<ElevationElement>::min()}}}
+                            std::numeric_limits<ElevationElement>::lowest()}}}
 
                 {
                 }
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
index 2998c31..7a74507 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/value_policies/d8_flow_direction.hpp
@@ -34,7 +34,7 @@ namespace lue {
                         DomainPolicyT<PoliciesBase>{},
                         FlowDirectionOutputPolicies{},
                         ElevationInputPolicies{FillHaloWithConstantValue<ElevationElement>{
-                            std::numeric_limits<ElevationElement>::min()}}}
+                            std::numeric_limits<ElevationElement>::lowest()}}}
 
                 {
                 }
-- 
2.43.0


From 6c0cc93d2576e3c4d89ae631c1e923d78c22d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:15 +0000
Subject: [PATCH 64/75] fix: route through partitions with a single row or
 column

A cell at a corner of such a partition was handled several times, and its
neighbours were looked for outside of the partition.
---
 .../definition/accumulating_router.hpp        | 151 ---------
 .../algorithm/definition/inflow_count.hpp     | 266 +--------------
 .../algorithm/detail/flow_direction.hpp       |  45 +++
 .../algorithm/detail/inflow_count.hpp         | 318 +-----------------
 4 files changed, 72 insertions(+), 708 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
index ecad279..8ce7678 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp
@@ -143,157 +143,6 @@ namespace lue {
         };
 
 
-        inline auto destination_cell(
-            Count const extent0,
-            Count const extent1,
-            Index const idx0,
-            Index const idx1,
-            Index const offset0,
-            Index const offset1) -> std::tuple<accu::Direction, Index>
-        {
-            lue_hpx_assert((idx0 == 0 || idx0 == extent0 - 1) || (idx1 == 0 || idx1 == extent1 - 1));
-            lue_hpx_assert(offset0 >= -1 && offset0 <= 1);
-            lue_hpx_assert(offset1 >= -1 && offset1 <= 1);
-
-            // Which neighbouring partition to send a message to
-            accu::Direction direction{};
-
-            // Idx of cell in the neighbouring partition
-            Index idx{-1};
-
-            if (idx0 == 0)
-            {
-                // north border
-                if (idx1 == 0)
-                {
-                    // north-west source cell → determine destination
-                    if (offset0 >= 0)
-                    {
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::west;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 >= 0)
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        direction = accu::Direction::north;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::north_west;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else if (idx1 == extent1 - 1)
-                {
-                    // north-east source cell → determine destination
-                    if (offset0 >= 0)
-                    {
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::east;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 <= 0)
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        direction = accu::Direction::north;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == -1);
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::north_east;
-                        idx = 0;  // Whatever
-                    }
-                }
-                else
-                {
-                    // north source cell → determine destination
-                    lue_hpx_assert(offset0 == -1);
-                    direction = accu::Direction::north;
-                    idx = idx1 + offset1;
-                }
-            }
-            else if (idx0 == extent0 - 1)
-            {
-                // south border
-                if (idx1 == 0)
-                {
-                    // south-west source cell → determine destination
-                    if (offset0 <= 0)
-                    {
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::west;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 >= 0)
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        direction = accu::Direction::south;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        lue_hpx_assert(offset1 == -1);
-                        direction = accu::Direction::south_west;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else if (idx1 == extent1 - 1)
-                {
-                    // south-east source cell → determine destination
-                    if (offset0 <= 0)
-                    {
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::east;
-                        idx = idx0 + offset0;
-                    }
-                    else if (offset1 <= 0)
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        direction = accu::Direction::south;
-                        idx = idx1 + offset1;
-                    }
-                    else
-                    {
-                        lue_hpx_assert(offset0 == 1);
-                        lue_hpx_assert(offset1 == 1);
-                        direction = accu::Direction::south_east;
-                        idx = -1;  // Whatever
-                    }
-                }
-                else
-                {
-                    // south source cell → determine destination
-                    lue_hpx_assert(offset0 == 1);
-                    direction = accu::Direction::south;
-                    idx = idx1 + offset1;
-                }
-            }
-            else if (idx1 == 0)
-            {
-                // west source cell → determine destination
-                lue_hpx_assert(offset1 == -1);
-                direction = accu::Direction::west;
-                idx = idx0 + offset0;
-            }
-            else if (idx1 == extent1 - 1)
-            {
-                // east source cell → determine destination
-                lue_hpx_assert(offset1 == 1);
-                direction = accu::Direction::east;
-                idx = idx0 + offset0;
-            }
-
-            return std::make_tuple(direction, idx);
-        }
-
-
         template<
             typename MaterialElement,
             Rank rank>  // Remove parameter
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
index 2dd9b51..3398ec7 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp
@@ -137,268 +137,36 @@ namespace lue {
 
             {
                 auto const& indp{std::get<0>(policies.inputs_policies()).input_no_data_policy()};
-                Index idx0, idx1;
-                FlowDirectionElement flow_direction;
 
-                if (extent1 > 2)
+                auto visit_border_cell = [&](Index const idx0, Index const idx1)
                 {
-                    // North side, excluding north-west and north-east corners
-                    idx0 = 0;
-
-                    for (idx1 = 1; idx1 < extent1 - 1; ++idx1)
-                    {
-                        if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                        {
-                            flow_direction = flow_direction_data(idx0, idx1);
-
-                            if (flow_direction == north_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::north].push_back(idx1 - 1);
-                            }
-                            else if (flow_direction == north<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::north].push_back(idx1);
-                            }
-                            else if (flow_direction == north_east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::north].push_back(idx1 + 1);
-                            }
-                        }
-                    }
-
-                    // South side, excluding south-west and south-east corners
-                    idx0 = extent0 - 1;
-
-                    for (idx1 = 1; idx1 < extent1 - 1; ++idx1)
-                    {
-                        if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                        {
-                            flow_direction = flow_direction_data(idx0, idx1);
-
-                            if (flow_direction == south_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::south].push_back(idx1 - 1);
-                            }
-                            else if (flow_direction == south<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::south].push_back(idx1);
-                            }
-                            else if (flow_direction == south_east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::south].push_back(idx1 + 1);
-                            }
-                        }
-                    }
-                }
-
-                if (extent0 > 2)
-                {
-                    // West side, excluding north-west and south-west corners
-                    idx1 = 0;
-
-                    for (idx0 = 1; idx0 < extent0 - 1; ++idx0)
-                    {
-                        if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                        {
-                            flow_direction = flow_direction_data(idx0, idx1);
-
-                            if (flow_direction == north_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::west].push_back(idx0 - 1);
-                            }
-                            else if (flow_direction == west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::west].push_back(idx0);
-                            }
-                            else if (flow_direction == south_west<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::west].push_back(idx0 + 1);
-                            }
-                        }
-                    }
-
-                    // East side, excluding north-east and south-east corners
-                    idx1 = extent1 - 1;
-
-                    for (idx0 = 1; idx0 < extent0 - 1; ++idx0)
-                    {
-                        if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                        {
-                            flow_direction = flow_direction_data(idx0, idx1);
-
-                            if (flow_direction == north_east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::east].push_back(idx0 - 1);
-                            }
-                            else if (flow_direction == east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::east].push_back(idx0);
-                            }
-                            else if (flow_direction == south_east<FlowDirectionElement>)
-                            {
-                                output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                                input_cell_idxs[accu::Direction::east].push_back(idx0 + 1);
-                            }
-                        }
-                    }
-                }
-
-                // North-west corner
-                {
-                    idx0 = 0;
-                    idx1 = 0;
-
                     if (!indp.is_no_data(flow_direction_data, idx0, idx1))
                     {
-                        flow_direction = flow_direction_data(idx0, idx1);
+                        Index offset0{0};
+                        Index offset1{0};
 
-                        if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0 + 1);
-                        }
-                        else if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0);
-                        }
-                        else if (flow_direction == north_west<FlowDirectionElement>)
+                        if (!downstream_cell(
+                                flow_direction_data, extent0, extent1, idx0, idx1, offset0, offset1))
                         {
-                            output_cells_idxs[accu::Direction::north_west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north_west].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1);
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1 + 1);
-                        }
-                    }
-                }
+                            auto const [direction, idx] =
+                                destination_cell(extent0, extent1, idx0, idx1, offset0, offset1);
 
-                // North-east corner
-                {
-                    idx0 = 0;
-                    idx1 = extent1 - 1;
-
-                    if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        flow_direction = flow_direction_data(idx0, idx1);
-
-                        if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1 - 1);
-                        }
-                        else if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north].push_back(idx1);
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::north_east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::north_east].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0);
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0 + 1);
-                        }
-                    }
-                }
-
-                // South-east corner
-                {
-                    idx0 = extent0 - 1;
-                    idx1 = extent1 - 1;
-
-                    if (!indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        flow_direction = flow_direction_data(idx0, idx1);
-
-                        if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0 - 1);
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::east].push_back(idx0);
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south_east].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south_east].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1);
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1 - 1);
+                            output_cells_idxs[direction].push_back({idx0, idx1});
+                            input_cell_idxs[direction].push_back(idx);
                         }
                     }
-                }
+                };
 
-                // South-west corner
+                // Visit each cell at the border once, also if the north and south sides, or the west and
+                // east sides, are the same
+                for (Index idx0 = 0; idx0 < extent0; ++idx0)
                 {
-                    idx0 = extent0 - 1;
-                    idx1 = 0;
+                    bool const is_border_row{idx0 == 0 || idx0 == extent0 - 1};
+                    Index const step{is_border_row ? Index{1} : std::max<Index>(extent1 - 1, 1)};
 
-                    if (!indp.is_no_data(flow_direction_data, idx0, idx1))
+                    for (Index idx1 = 0; idx1 < extent1; idx1 += step)
                     {
-                        flow_direction = flow_direction_data(idx0, idx1);
-
-                        if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0 - 1);
-                        }
-                        else if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::west].push_back(idx0);
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south_west].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south_west].push_back(std::size_t(-1));
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1);
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            output_cells_idxs[accu::Direction::south].push_back({idx0, idx1});
-                            input_cell_idxs[accu::Direction::south].push_back(idx1 + 1);
-                        }
+                        visit_border_cell(idx0, idx1);
                     }
                 }
 
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/detail/flow_direction.hpp b/source/framework/algorithm/include/lue/framework/algorithm/detail/flow_direction.hpp
index 8e5b678..9583278 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/detail/flow_direction.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/detail/flow_direction.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "lue/framework/algorithm/detail/communicator.hpp"
 #include "lue/framework/algorithm/flow_direction.hpp"
 #include "lue/framework/core/assert.hpp"
 #include "lue/framework/core/define.hpp"
@@ -126,4 +127,48 @@ namespace lue::detail {
         return {idx0 + offset0, idx1 + offset1};
     }
 
+
+    /*!
+        @brief      Given a cell in the partition draining into a cell in a neighbouring partition, return
+                    the direction of this partition and the 1D index of the destination cell in its border
+
+        The partition itself may be as small as a single row, column, or cell. In case the neighbouring
+        partition is located at a corner, the index returned is not relevant.
+    */
+    inline auto destination_cell(
+        Count const extent0,
+        Count const extent1,
+        Index const idx0,
+        Index const idx1,
+        Index const offset0,
+        Index const offset1) -> std::tuple<accu::Direction, Index>
+    {
+        lue_hpx_assert((idx0 == 0 || idx0 == extent0 - 1) || (idx1 == 0 || idx1 == extent1 - 1));
+        lue_hpx_assert(offset0 >= -1 && offset0 <= 1);
+        lue_hpx_assert(offset1 >= -1 && offset1 <= 1);
+
+        bool const is_north{idx0 + offset0 < 0};
+        bool const is_south{idx0 + offset0 >= extent0};
+        bool const is_west{idx1 + offset1 < 0};
+        bool const is_east{idx1 + offset1 >= extent1};
+
+        lue_hpx_assert(is_north || is_south || is_west || is_east);
+
+        if (is_north)
+        {
+            return is_west   ? std::make_tuple(accu::Direction::north_west, Index{-1})
+                   : is_east ? std::make_tuple(accu::Direction::north_east, Index{-1})
+                             : std::make_tuple(accu::Direction::north, idx1 + offset1);
+        }
+
+        if (is_south)
+        {
+            return is_west   ? std::make_tuple(accu::Direction::south_west, Index{-1})
+                   : is_east ? std::make_tuple(accu::Direction::south_east, Index{-1})
+                             : std::make_tuple(accu::Direction::south, idx1 + offset1);
+        }
+
+        return std::make_tuple(is_west ? accu::Direction::west : accu::Direction::east, idx0 + offset0);
+    }
+
 }  // namespace lue::detail
diff --git a/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp b/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
index 5941b1b..b4ffe67 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/detail/inflow_count.hpp
@@ -21,9 +21,9 @@ namespace lue::detail {
         auto const& indp{std::get<0>(policies.inputs_policies()).input_no_data_policy()};
         auto const& ondp{std::get<0>(policies.outputs_policies()).output_no_data_policy()};
 
-        for (Index idx0 = 1; idx0 < nr_elements0 - 1; ++idx0)
+        for (Index idx0 = 0; idx0 < nr_elements0; ++idx0)
         {
-            for (Index idx1 = 1; idx1 < nr_elements1 - 1; ++idx1)
+            for (Index idx1 = 0; idx1 < nr_elements1; ++idx1)
             {
                 if (indp.is_no_data(flow_direction_data, idx0, idx1))
                 {
@@ -31,318 +31,20 @@ namespace lue::detail {
                 }
                 else
                 {
-                    auto const [rd, cd] = downstream_cell(flow_direction_data, idx0, idx1);
+                    Index offset0{0};
+                    Index offset1{0};
+                    bool const is_within_partition{downstream_cell(
+                        flow_direction_data, nr_elements0, nr_elements1, idx0, idx1, offset0, offset1)};
 
-                    if (rd != idx0 || cd != idx1)
+                    if (is_within_partition && (offset0 != 0 || offset1 != 0))
                     {
                         // Current cell is not a sink. In
                         // a valid flow direction network,
                         // the destination cell cannot contain
                         // no-data.
-                        lue_hpx_assert(!indp.is_no_data(flow_direction_data(rd, cd)));
-                        inflow_count_data(rd, cd) += 1;
-                    }
-                }
-            }
-        }
-
-        // North-west cell
-        {
-            Index const idx0{0};
-            Index const idx1{0};
-
-            if (indp.is_no_data(flow_direction_data, idx0, idx1))
-            {
-                ondp.mark_no_data(inflow_count_data, idx0, idx1);
-            }
-            else
-            {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                    inflow_count_data(idx0, idx1 + 1) += 1;
-                }
-                else if (flow_direction == south_east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 + 1)));
-                    inflow_count_data(idx0 + 1, idx1 + 1) += 1;
-                }
-                else if (flow_direction == south<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                    inflow_count_data(idx0 + 1, idx1) += 1;
-                }
-            }
-        }
-
-        // North-east cell
-        {
-            Index const idx0{0};
-            Index const idx1{nr_elements1 - 1};
-
-            if (indp.is_no_data(flow_direction_data, idx0, idx1))
-            {
-                ondp.mark_no_data(inflow_count_data, idx0, idx1);
-            }
-            else
-            {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                    inflow_count_data(idx0, idx1 - 1) += 1;
-                }
-                else if (flow_direction == south_west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 - 1)));
-                    inflow_count_data(idx0 + 1, idx1 - 1) += 1;
-                }
-                else if (flow_direction == south<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                    inflow_count_data(idx0 + 1, idx1) += 1;
-                }
-            }
-        }
-
-        // South-west cell
-        {
-            Index const idx0{nr_elements0 - 1};
-            Index const idx1{0};
-
-            if (indp.is_no_data(flow_direction_data, idx0, idx1))
-            {
-                ondp.mark_no_data(inflow_count_data, idx0, idx1);
-            }
-            else
-            {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == north<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                    inflow_count_data(idx0 - 1, idx1) += 1;
-                }
-                else if (flow_direction == north_east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 + 1)));
-                    inflow_count_data(idx0 - 1, idx1 + 1) += 1;
-                }
-                else if (flow_direction == east<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                    inflow_count_data(idx0, idx1 + 1) += 1;
-                }
-            }
-        }
-
-        // South-east cell
-        {
-            Index const idx0{nr_elements0 - 1};
-            Index const idx1{nr_elements1 - 1};
-
-            if (indp.is_no_data(flow_direction_data, idx0, idx1))
-            {
-                ondp.mark_no_data(inflow_count_data, idx0, idx1);
-            }
-            else
-            {
-                auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                if (flow_direction == west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                    inflow_count_data(idx0, idx1 - 1) += 1;
-                }
-                else if (flow_direction == north_west<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 - 1)));
-                    inflow_count_data(idx0 - 1, idx1 - 1) += 1;
-                }
-                else if (flow_direction == north<FlowDirectionElement>)
-                {
-                    lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                    inflow_count_data(idx0 - 1, idx1) += 1;
-                }
-            }
-        }
-
-        if (nr_elements1 > 2)
-        {
-            // North cells
-            {
-                Index const idx0 = 0;
-
-                for (Index idx1 = 1; idx1 < nr_elements1 - 1; ++idx1)
-                {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                            inflow_count_data(idx0, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 - 1)));
-                            inflow_count_data(idx0 + 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                            inflow_count_data(idx0 + 1, idx1) += 1;
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 + 1)));
-                            inflow_count_data(idx0 + 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                            inflow_count_data(idx0, idx1 + 1) += 1;
-                        }
-                    }
-                }
-            }
-
-            // South cells
-            {
-                Index const idx0 = nr_elements0 - 1;
-
-                for (Index idx1 = 1; idx1 < nr_elements1 - 1; ++idx1)
-                {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                            inflow_count_data(idx0, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 - 1)));
-                            inflow_count_data(idx0 - 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                            inflow_count_data(idx0 - 1, idx1) += 1;
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 + 1)));
-                            inflow_count_data(idx0 - 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                            inflow_count_data(idx0, idx1 + 1) += 1;
-                        }
-                    }
-                }
-            }
-        }
-
-        if (nr_elements0 > 2)
-        {
-            // West cells
-            {
-                Index const idx1 = 0;
-
-                for (Index idx0 = 1; idx0 < nr_elements0 - 1; ++idx0)
-                {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                            inflow_count_data(idx0 - 1, idx1) += 1;
-                        }
-                        else if (flow_direction == north_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 + 1)));
-                            inflow_count_data(idx0 - 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 + 1)));
-                            inflow_count_data(idx0, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == south_east<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 + 1)));
-                            inflow_count_data(idx0 + 1, idx1 + 1) += 1;
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                            inflow_count_data(idx0 + 1, idx1) += 1;
-                        }
-                    }
-                }
-            }
-
-            // East cells
-            {
-                Index const idx1 = nr_elements1 - 1;
-
-                for (Index idx0 = 1; idx0 < nr_elements0 - 1; ++idx0)
-                {
-                    if (indp.is_no_data(flow_direction_data, idx0, idx1))
-                    {
-                        ondp.mark_no_data(inflow_count_data, idx0, idx1);
-                    }
-                    else
-                    {
-                        auto const flow_direction{flow_direction_data(idx0, idx1)};
-
-                        if (flow_direction == north<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1)));
-                            inflow_count_data(idx0 - 1, idx1) += 1;
-                        }
-                        else if (flow_direction == north_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 - 1, idx1 - 1)));
-                            inflow_count_data(idx0 - 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0, idx1 - 1)));
-                            inflow_count_data(idx0, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south_west<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1 - 1)));
-                            inflow_count_data(idx0 + 1, idx1 - 1) += 1;
-                        }
-                        else if (flow_direction == south<FlowDirectionElement>)
-                        {
-                            lue_hpx_assert(!indp.is_no_data(flow_direction_data(idx0 + 1, idx1)));
-                            inflow_count_data(idx0 + 1, idx1) += 1;
-                        }
+                        lue_hpx_assert(
+                            !indp.is_no_data(flow_direction_data, idx0 + offset0, idx1 + offset1));
+                        inflow_count_data(idx0 + offset0, idx1 + offset1) += 1;
                     }
                 }
             }
-- 
2.43.0


From 06c79b97f524d58f461e205f7a2c3e6f0faa2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 65/75] fix: no route along cells in decreasing order in case
 there are no values

---
 .../framework/algorithm/definition/decreasing_order.hpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 748e9e6..6d20e7a 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -1604,6 +1604,13 @@ namespace lue {
                                 downstream_maxima.end(),
                                 detail::CompareDownstreamMaxima<Value>{});
 
+                            if (downstream_maxima.empty())
+                            {
+                                // There are no valid values, so there is no route
+                                return hpx::make_ready_future(
+                                    std::make_tuple(RouteStarts{}, std::move(components)));
+                            }
+
                             Component component{std::get<1>(downstream_maxima.front())};
 
                             hpx::future<typename Route::FragmentLocation> start_f =
-- 
2.43.0


From af854599143d4d8c3fbefa88ba3f83fd4c08d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:06 +0000
Subject: [PATCH 66/75] fix: route partitions can be requested after they are
 finished

---
 .../framework/algorithm/definition/decreasing_order.hpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 6d20e7a..061efea 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -105,6 +105,7 @@ namespace lue {
 
                         _route_partition{hpx::find_here(), offset, shape},
                         _route_partition_p{},
+                        _route_partition_f{_route_partition_p.get_future()},
                         _record_route_fragment_mutex{},
                         _route_fragments{},
                         _route_fragment_ends{},
@@ -120,11 +121,12 @@ namespace lue {
 
 
                         The instance returned isn't pointing to a server instance yet, but
-                        we'll promise to fix that later.
+                        we'll promise to fix that later. This function can be called before
+                        and after the partition is finished.
                     */
                     auto route_partition() -> RoutePartition
                     {
-                        return RoutePartition{_route_partition_p.get_future()};
+                        return RoutePartition{std::move(_route_partition_f)};
                     }
 
 
@@ -194,6 +196,9 @@ namespace lue {
                     //! Promise for the ID of the route partition server component
                     hpx::promise<hpx::id_type> _route_partition_p;
 
+                    //! Future to the ID of the route partition server component
+                    hpx::future<hpx::id_type> _route_partition_f;
+
                     hpx::shared_mutex _record_route_fragment_mutex;
 
                     RouteFragments _route_fragments;
-- 
2.43.0


From 8f382d599e30a9330e78cf7677f679cd567966b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:36 +0000
Subject: [PATCH 67/75] fix: order cells with negative floating point values
 too

---
 .../lue/framework/algorithm/definition/decreasing_order.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 061efea..092c117 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -366,7 +366,7 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        Value remote_value{std::numeric_limits<Value>::lowest()};
                         hpx::id_type downstream_component_id{};
 
                         if (downstream_maxima.size() > 1)
@@ -870,7 +870,7 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        Value remote_value{std::numeric_limits<Value>::lowest()};
                         hpx::id_type downstream_component_id{};
 
                         if (downstream_maxima.size() > 1)
-- 
2.43.0


From 4282db9b29e836d713924fed6eb6385e0b89ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:47 +0000
Subject: [PATCH 68/75] fix: request the result of a walk before and after
 walking

---
 .../lue/framework/algorithm/definition/first_n.hpp   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
index 3b3f142..0a05650 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
@@ -55,6 +55,7 @@ namespace lue {
                         ComponentServerBase{},
                         _policies{policies},
                         _output_partition_promise{},
+                        _output_partition_future{_output_partition_promise.get_future()},
                         _output_partition{},
                         _route_partition{std::move(route_partition)},
                         _walk_mutex{},
@@ -94,13 +95,13 @@ namespace lue {
 
                     OutputPartition result_partition()
                     {
-                        // Connect the promise with the future
-                        // This function must be called exactly once
-                        OutputPartition partition{_output_partition_promise.get_future()};
+                        // This function must be called exactly once. It can be called before
+                        // and after the walks through this partition.
+                        OutputPartition partition{std::move(_output_partition_future)};
 
                         // If the route partition contains no fragments, the output partition
                         // can be marked as finished immediately
-                        if (_fragment_idxs.empty())
+                        if (ready_component_ptr(_route_partition)->route_ids().empty())
                         {
                             finish_partition();
                         }
@@ -323,6 +324,9 @@ namespace lue {
 
                     mutable hpx::promise<hpx::id_type> _output_partition_promise;
 
+                    //! Future to the ID of the output partition
+                    hpx::future<hpx::id_type> _output_partition_future;
+
                     OutputPartition _output_partition;
 
                     RoutePartition _route_partition;
-- 
2.43.0


From 5787d682c293807c80927ee0e66fc489a2f9733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:52 +0000
Subject: [PATCH 69/75] fix: focal maximum of negative values at the border

---
 .../lue/framework/algorithm/default_policies/focal_maximum.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp
index d7d5e3e..c5089ce 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/default_policies/focal_maximum.hpp
@@ -23,7 +23,7 @@ namespace lue {
         {
             using Policies = policy::focal_maximum::DefaultPolicies<Element>;
 
-            Element const fill_value{std::numeric_limits<Element>::min()};
+            Element const fill_value{std::numeric_limits<Element>::lowest()};
 
             return focal_maximum(Policies{fill_value}, array, kernel);
         }
-- 
2.43.0


From c2e96a9d2f32884230e0760690e3be24b9c5ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 70/75] fix: a rate limit also holds for the first time steps

---
 .../framework/model/include/lue/framework/model/simulate.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/framework/model/include/lue/framework/model/simulate.hpp b/source/framework/model/include/lue/framework/model/simulate.hpp
index 1d6db88..012e829 100644
--- a/source/framework/model/include/lue/framework/model/simulate.hpp
+++ b/source/framework/model/include/lue/framework/model/simulate.hpp
@@ -76,7 +76,8 @@ namespace lue {
         rate_limit -= 1;  // Otherwise we get rate_limit + 1 time steps in flight
 
         std::int64_t const max_difference{rate_limit};
-        hpx::sliding_semaphore semaphore{max_difference, first_time_step};
+        // No time step has finished yet, so the lower limit is the one before the first
+        hpx::sliding_semaphore semaphore{max_difference, first_time_step - 1};
 
         // A type to represent the simulation's "state" after a single time step. It is assumed that once this
         // state becomes ready, that the tasks for the corresponding time step have all finished.
-- 
2.43.0


From 95ebb87b783ce5be83b1e87d75e51e03fc1261d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:09 +0000
Subject: [PATCH 71/75] fix: default no-data policy for reading rasters of
 floats

---
 source/framework/io/source/gdal.cpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/framework/io/source/gdal.cpp.in b/source/framework/io/source/gdal.cpp.in
index aeda253..f5e7221 100644
--- a/source/framework/io/source/gdal.cpp.in
+++ b/source/framework/io/source/gdal.cpp.in
@@ -53,7 +53,7 @@ namespace lue {
 
                 SpecialValuePolicy():
 
-                    SpecialValuePolicy{policy::no_data_value<Element>}
+                    SpecialValuePolicy{policy::DetectNoDataByValue<Element>::no_data_value}
 
                 {
                 }
-- 
2.43.0


From 699a732877f31b2ce5f4ae166f7510d966b8d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:23 +0000
Subject: [PATCH 72/75] fix: reading and writing arrays of which some
 localities have no partitions

---
 source/framework/io/source/lue.cpp | 31 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/source/framework/io/source/lue.cpp b/source/framework/io/source/lue.cpp
index abfafdf..6e496c8 100644
--- a/source/framework/io/source/lue.cpp
+++ b/source/framework/io/source/lue.cpp
@@ -343,11 +343,19 @@ namespace lue::detail {
     }
 
 
+    // Each function below returns information about calls this call depends on. In case of serial I/O, the
+    // root locality only spawns a task once all calls it depends on have finished. Whether or not the current
+    // locality has taken part in those calls is not relevant then: a locality which does not contain
+    // partitions of an array doesn't open the dataset, and never sets the value of the promises related to
+    // that call.
+
+
     auto to_lue_open_dataset_when_predecessor_done(std::filesystem::path const& path, Count const open_count)
         -> hpx::shared_future<void>
     {
         // TODO: remove if not used
-        return to_lue_open_dataset_serializer().when_predecessor_done(path, open_count);
+        return parallel_io ? to_lue_open_dataset_serializer().when_predecessor_done(path, open_count)
+                           : hpx::make_ready_future().share();
     }
 
 
@@ -360,7 +368,8 @@ namespace lue::detail {
     auto to_lue_close_dataset_when_predecessor_done(std::filesystem::path const& path, Count const open_count)
         -> hpx::shared_future<void>
     {
-        return to_lue_close_dataset_serializer().when_predecessor_done(path, open_count);
+        return parallel_io ? to_lue_close_dataset_serializer().when_predecessor_done(path, open_count)
+                           : hpx::make_ready_future().share();
     }
 
 
@@ -368,7 +377,8 @@ namespace lue::detail {
         std::filesystem::path const& path, Count const open_count) -> hpx::shared_future<void>
     {
         // TODO: remove if not used
-        return from_lue_open_dataset_serializer().when_predecessor_done(path, open_count);
+        return parallel_io ? from_lue_open_dataset_serializer().when_predecessor_done(path, open_count)
+                           : hpx::make_ready_future().share();
     }
 
 
@@ -381,7 +391,8 @@ namespace lue::detail {
     auto from_lue_close_dataset_when_predecessor_done(
         std::filesystem::path const& path, Count const open_count) -> hpx::shared_future<void>
     {
-        return from_lue_close_dataset_serializer().when_predecessor_done(path, open_count);
+        return parallel_io ? from_lue_close_dataset_serializer().when_predecessor_done(path, open_count)
+                           : hpx::make_ready_future().share();
     }
 
 
@@ -395,7 +406,7 @@ namespace lue::detail {
     {
         lue_hpx_assert(count > 0);
 
-        return from_lue_close_dataset_serializer().contains(path, count);
+        return serial_io || from_lue_close_dataset_serializer().contains(path, count);
     }
 
 
@@ -408,8 +419,8 @@ namespace lue::detail {
     auto from_lue_close_dataset_done(std::filesystem::path const& path, Count const count)
         -> hpx::shared_future<void>
     {
-        return count > 0 ? from_lue_close_dataset_serializer().when_done(path, count)
-                         : hpx::make_ready_future().share();
+        return parallel_io && count > 0 ? from_lue_close_dataset_serializer().when_done(path, count)
+                                        : hpx::make_ready_future().share();
     }
 
 
@@ -423,7 +434,7 @@ namespace lue::detail {
     {
         lue_hpx_assert(count > 0);
 
-        return to_lue_close_dataset_serializer().contains(path, count);
+        return serial_io || to_lue_close_dataset_serializer().contains(path, count);
     }
 
 
@@ -436,8 +447,8 @@ namespace lue::detail {
     auto to_lue_close_dataset_done(std::filesystem::path const& path, Count const count)
         -> hpx::shared_future<void>
     {
-        return count > 0 ? to_lue_close_dataset_serializer().when_done(path, count)
-                         : hpx::make_ready_future().share();
+        return parallel_io && count > 0 ? to_lue_close_dataset_serializer().when_done(path, count)
+                                        : hpx::make_ready_future().share();
     }
 
 }  // namespace lue::detail
-- 
2.43.0


From 9d9205018d6ec78960899aeaff2aa6feba732f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 73/75] fix: close datasets once reading or writing has
 finished

---
 source/framework/io/include/lue/framework/io/from_lue.hpp | 6 +++---
 source/framework/io/include/lue/framework/io/to_lue.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index b108477..8aba1a0 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -247,7 +247,7 @@ namespace lue {
                             -> Partitions
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto const dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             from_lue_close_dataset_p.set_value();
                             return partitions;
                         });
@@ -418,7 +418,7 @@ namespace lue {
                         lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto const dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -446,7 +446,7 @@ namespace lue {
                                     -> auto
                                 {
                                     // The dataset must go out of scope before we set the promise's value
-                                    [](auto&& dataset) -> auto
+                                    [](auto const dataset) -> auto
                                     {
                                         HPX_UNUSED(dataset);
                                         // dataset.flush();
diff --git a/source/framework/io/include/lue/framework/io/to_lue.hpp b/source/framework/io/include/lue/framework/io/to_lue.hpp
index 5ce5ab6..37c09e3 100644
--- a/source/framework/io/include/lue/framework/io/to_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/to_lue.hpp
@@ -315,7 +315,7 @@ namespace lue {
                             [[maybe_unused]] auto const& close_for_read_file_predecessor_f) mutable -> auto
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto const dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             to_lue_close_dataset_p.set_value();
                         });
                 },
@@ -518,7 +518,7 @@ namespace lue {
                         lue_hpx_assert(to_lue_close_dataset_predecessor_f.is_ready());
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto const dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -545,7 +545,7 @@ namespace lue {
                                 -> auto
                             {
                                 // The dataset must go out of scope before we set the promise's value
-                                [](auto&& dataset) -> auto
+                                [](auto const dataset) -> auto
                                 {
                                     HPX_UNUSED(dataset);
                                     // dataset.flush();
-- 
2.43.0


From 211493578b258d654dc48c9685cc8f9c7756ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 74/75] fix: wait for writing to finish before opening a
 dataset to get the shape of an array

---
 .../io/include/lue/framework/io/from_lue.hpp   | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index 8aba1a0..841582c 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -818,12 +818,28 @@ namespace lue {
         }
 
 
+        /*!
+            @brief      Wait until all calls to to_lue to the dataset pointed to by @a dataset_path have
+                        finished
+
+            A dataset can't be opened for reading while it is still open for writing.
+        */
+        inline void wait_until_written([[maybe_unused]] std::filesystem::path const& dataset_path)
+        {
+#ifndef LUE_FRAMEWORK_WITH_PARALLEL_IO
+            to_lue_finished(dataset_path, current_to_lue_order(dataset_path)).wait();
+#endif
+        }
+
+
         template<typename Shape>
         auto constant_array_shape(std::string const& array_pathname) -> Shape
         {
             auto const [dataset_pathname, phenomenon_name, property_set_name, property_name] =
                 parse_array_pathname(array_pathname);
 
+            wait_until_written(normalize(dataset_pathname));
+
             namespace lh5 = lue::hdf5;
             namespace ldm = lue::data_model;
 
@@ -854,6 +870,8 @@ namespace lue {
             auto const [dataset_pathname, phenomenon_name, property_set_name, property_name] =
                 parse_array_pathname(array_pathname);
 
+            wait_until_written(normalize(dataset_pathname));
+
             namespace lh5 = lue::hdf5;
             namespace ldm = lue::data_model;
 
-- 
2.43.0


From af034b5b9cc44b32ae67f068029d9753c78dc0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:34 +0000
Subject: [PATCH 75/75] fix: wait for all reads from a dataset to finish before
 writing to it

---
 source/framework/io/source/lue.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/framework/io/source/lue.cpp b/source/framework/io/source/lue.cpp
index 6e496c8..bb55162 100644
--- a/source/framework/io/source/lue.cpp
+++ b/source/framework/io/source/lue.cpp
@@ -228,7 +228,12 @@ namespace lue::detail {
     void add_from_lue_finished(
         std::filesystem::path const& path, Count const count, hpx::shared_future<void> future)
     {
-        add_call_finished(from_lue_finished(), path, count, std::move(future));
+        // Calls to from_lue can finish in any order. A call to to_lue must wait for all of them.
+        add_call_finished(
+            from_lue_finished(),
+            path,
+            count,
+            hpx::when_all(from_lue_finished(path, count - 1), std::move(future)).share());
     }
 
 
@@ -244,7 +249,8 @@ namespace lue::detail {
 
 
     /*!
-        @brief      Return a future which becomes ready once call @a count to from_lue from @a path finishes
+        @brief      Return a future which becomes ready once call @a count to from_lue from @a path, and all
+                    calls before it, finish
 
         This function must be called from the root locality, on the main thread.
     */
-- 
2.43.0

