From 7a4e0fa7668ea0816ee55daa8887afd72916ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 01/42] fix: copying a null shared pointer dereferences a null
 pointer

---
 lib/mito/utilities/SharedPointer.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..0ec2b6b 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -172,8 +172,12 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
+
     // all done
     return;
 }
-- 
2.43.0


From ee716d856eb45dd74129b4e34106691f6090de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/42] fix: moving a shared pointer onto one of the same
 resource leaks a reference

---
 lib/mito/utilities/SharedPointer.icc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 0ec2b6b..ef38185 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,17 +152,16 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} is not me
+    if (&other != this) {
         // release my current handle
         _release();
         // adopt the new shareable
         _handle = std::move(other._handle);
+        // invalidate {other}
+        other._handle = nullptr;
     }
 
-    // invalidate {other}
-    other._handle = nullptr;
-
     // all done
     return *this;
 }
-- 
2.43.0


From ef6eb4726433394912c930254862dc2a9d91a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 03/42] fix: postfix increment of a segmented container
 iterator visits erased elements

---
 lib/mito/utilities/SegmentedContainerIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..609fefd 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -103,8 +103,8 @@ namespace mito::utilities {
         {
             // make a copy of me
             auto clone = *this;
-            // increment me
-            ++_segmented_iterator;
+            // increment me (skipping the invalid elements)
+            operator++();
             // and return the clone
             return clone;
         }
-- 
2.43.0


From 5207e86d18a144a0b20f3246b03a12523cfad03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 04/42] fix: a repository erases resources that someone else is
 still using

---
 lib/mito/utilities/Repository.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..8fbeaf1 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -107,6 +107,11 @@ namespace mito::utilities {
                 return false;
             }
 
+            // if someone else is using the resource, do nothing
+            if (resource.references() > 1) {
+                return false;
+            }
+
             // remove this resource from the collection of resources
             _resources.erase(resource.handle());
             // destroy the resource
-- 
2.43.0


From 2bebd5c3b7dbd81648004ac6beb2ce058e301650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 05/42] fix: a repository destroys erased resources a second
 time upon destruction

---
 lib/mito/utilities/Repository.h         |  6 ++----
 lib/mito/utilities/SegmentedAllocator.h | 27 ++++++++++++++++++++++---
 lib/mito/utilities/externals.h          |  3 ++-
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 8fbeaf1..fe895cb 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -70,10 +70,8 @@ namespace mito::utilities {
         // destructor
         ~Repository()
         {
-            // destroy all resources
-            for (const auto & resource : _resources) {
-                resource.~resource_type();
-            }
+            // destroy all resources (those that were erased have already been destroyed)
+            _resources.visit([](auto & resource) { resource.~resource_type(); });
         }
 
         // build a resource passing down {args...} to the resource constructor and store it in the
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index eb6264b..4c65ed2 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -245,7 +245,7 @@ namespace mito::utilities {
                 // assert that the newly inserted element was inserted at the front of the queue
                 assert(const_cast<pointer>(element) == _available_locations.front());
                 // remove the next available location from the queue
-                _available_locations.pop();
+                _available_locations.pop_front();
             }
 
             // all done
@@ -261,7 +261,7 @@ namespace mito::utilities {
             --_n_elements;
 
             // add the address of the element to the queue of the available locations for write
-            _available_locations.push(const_cast<unqualified_pointer>(element));
+            _available_locations.push_back(const_cast<unqualified_pointer>(element));
 
             // check if this element belongs to my allocation
             assert(_erase_check(element));
@@ -270,6 +270,27 @@ namespace mito::utilities {
             return;
         }
 
+        // apply {function} to all the elements in the container that have not been erased
+        template <class functionT>
+        auto visit(functionT && function) -> void
+        {
+            // sort the available locations to look them up
+            std::ranges::sort(_available_locations);
+
+            // loop on all locations
+            for (auto & element : *this) {
+                // if the element at this location has not been erased
+                if (!std::ranges::binary_search(
+                        _available_locations, const_cast<unqualified_pointer>(&element))) {
+                    // visit it
+                    function(element);
+                }
+            }
+
+            // all done
+            return;
+        }
+
       public:
         /**
          * iterators
@@ -343,7 +364,7 @@ namespace mito::utilities {
         // the number of elements stored in the container
         int _n_elements;
         // a queue with the available locations for writing
-        std::queue<unqualified_pointer> _available_locations;
+        std::deque<unqualified_pointer> _available_locations;
         // a map with pointers to the start of each segment
         std::unordered_map<int, unqualified_pointer> _start_of_segment;
 
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..62c9677 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -9,7 +9,8 @@
 
 // externals
 #include <cassert>
-#include <queue>
+#include <algorithm>
+#include <deque>
 #include <vector>
 #include <utility>
 #include <memory>
-- 
2.43.0


From a62705f0391bd1e710dc190fe7026d4cde2bedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 06/42] fix: a failed insertion or erasure corrupts segmented
 containers

---
 lib/mito/utilities/SegmentedAllocator.h | 25 +++++++-------
 lib/mito/utilities/SegmentedVector.h    | 45 +++++++++++++++++++------
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index 4c65ed2..1f7f1b2 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -133,6 +133,8 @@ namespace mito::utilities {
       private:
         auto _allocate_new_segment() -> unqualified_pointer
         {
+            // make room to take note of the beginning of the segment
+            auto & start_of_segment = _start_of_segment[_n_segments];
             // allocate a new segment of memory
             unqualified_pointer segment = static_cast<unqualified_pointer>(::operator new(
                 _segment_size * sizeof(resource_type) + sizeof(unqualified_pointer)));
@@ -140,8 +142,6 @@ namespace mito::utilities {
             if (_begin == _end) {
                 // point {_begin} to the beginning of the allocated memory
                 _begin = segment;
-                // take note of the beginning of the segment
-                _start_of_segment[_n_segments] = _begin;
             }
             // otherwise
             else {
@@ -150,9 +150,9 @@ namespace mito::utilities {
                     reinterpret_cast<unqualified_pointer *>(_end_allocation);
                 // leave behind a pointer with the location of the next segment
                 *tail = segment;
-                // take note of the beginning of the segment
-                _start_of_segment[_n_segments] = *tail;
             }
+            // take note of the beginning of the segment
+            start_of_segment = segment;
             // increment the number of segments
             ++_n_segments;
             // update the end of the container
@@ -222,12 +222,6 @@ namespace mito::utilities {
                 location = _allocate_new_segment();
             }
 
-            // if we have written past the last element
-            if (location == _end) {
-                // move the end of the container
-                ++_end;
-            }
-
             // all done
             return { location, reused };
         }
@@ -247,6 +241,11 @@ namespace mito::utilities {
                 // remove the next available location from the queue
                 _available_locations.pop_front();
             }
+            // otherwise, we have written past the last element
+            else {
+                // move the end of the container
+                ++_end;
+            }
 
             // all done
             return;
@@ -257,12 +256,12 @@ namespace mito::utilities {
         // available locations for reuse)
         auto erase(resource_type * element) -> void
         {
-            // decrement the number of elements
-            --_n_elements;
-
             // add the address of the element to the queue of the available locations for write
             _available_locations.push_back(const_cast<unqualified_pointer>(element));
 
+            // decrement the number of elements
+            --_n_elements;
+
             // check if this element belongs to my allocation
             assert(_erase_check(element));
 
diff --git a/lib/mito/utilities/SegmentedVector.h b/lib/mito/utilities/SegmentedVector.h
index 57a930e..36d23cc 100644
--- a/lib/mito/utilities/SegmentedVector.h
+++ b/lib/mito/utilities/SegmentedVector.h
@@ -76,20 +76,21 @@ namespace mito::utilities {
             // whether the location was reused
             auto [location, reused] = _resources.location_for_placement();
 
-            // if the location was reused, destroy the resource at {location}
+            // if the location was reused, replace the resource at {location}
             if (reused) {
-                // destroy the resource
-                location->~resource_type();
+                _replace(location, std::forward<Args>(args)...);
+            }
+            // otherwise
+            else {
+                // create a new instance of {resource_type} at {location} with placement new
+                new (location) resource_type(std::forward<Args>(args)...);
             }
-
-            // create a new instance of {resource_type} at location {location} with placement new
-            resource_type * resource = new (location) resource_type(std::forward<Args>(args)...);
 
             // add resource to the collection of resources
-            _resources.insert(resource);
+            _resources.insert(location);
 
             // return the newly added resource
-            return *resource;
+            return *location;
         }
 
         // erase a resource from the vector
@@ -100,12 +101,12 @@ namespace mito::utilities {
                 return false;
             }
 
-            // invalidate the resource
-            resource.invalidate();
-
             // remove this resource from the collection of resources
             _resources.erase(&resource);
 
+            // invalidate the resource
+            resource.invalidate();
+
             // all done
             return true;
         }
@@ -138,6 +139,28 @@ namespace mito::utilities {
             return iterator(_resources.end());
         }
 
+      private:
+        // replace the resource at {location} with a new one
+        template <class... Args>
+        inline auto _replace(pointer_type location, Args &&... args) -> void
+        {
+            // if building the new resource may fail
+            if constexpr (
+                !std::is_nothrow_constructible_v<resource_type, Args...>
+                && std::is_nothrow_move_constructible_v<resource_type>) {
+                // build it before destroying the old one, so that {location} always hosts a resource
+                resource_type resource(std::forward<Args>(args)...);
+                location->~resource_type();
+                new (location) resource_type(std::move(resource));
+            } else {
+                location->~resource_type();
+                new (location) resource_type(std::forward<Args>(args)...);
+            }
+
+            // all done
+            return;
+        }
+
       private:
         // container to store the resources
         resource_collection_type _resources;
-- 
2.43.0


From 2c64844e5a84d24e92db52bca42f5fde2ada8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 07/42] fix: a segment that was not created from its tips is
 said not to exist

---
 lib/mito/topology/Topology.icc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..725339e 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -265,9 +265,17 @@ mito::topology::Topology::exists(const simplex_composition_t<N> & simplices) con
 inline auto
 mito::topology::Topology::exists(const vertex_simplex_composition_t<1> & vertices) const -> bool
 {
+    // find an oriented simplex riding on {vertex} (preferably one with orientation {orientation},
+    // but a segment that was not created from its tips, e.g. the flip of another segment, may exist
+    // even though only the opposite orientation does)
+    auto find_tip = [this](const vertex_t & vertex, orientation_t orientation) {
+        auto tip = _get_factory<0>().findOrientedSimplex(vertex, orientation);
+        return tip.is_nullptr() ? _get_factory<0>().findOrientedSimplex(vertex, -orientation) : tip;
+    };
+
     // find left and right tip simplices
-    auto simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], -1);
-    auto simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], +1);
+    auto simplex_left_tip = find_tip(vertices[0], -1);
+    auto simplex_right_tip = find_tip(vertices[1], +1);
 
     // if both are are found
     if (!simplex_left_tip.is_nullptr() && !simplex_right_tip.is_nullptr()) {
-- 
2.43.0


From e8ee20900a7d266c8f559b60b73245f9e1c9ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 08/42] fix: a failed creation or erasure of a simplex leaves
 the topology inconsistent

---
 lib/mito/topology/OrientedSimplexFactory.h | 48 +++++++++++++++-------
 lib/mito/topology/SimplexFactory.h         | 33 ++++++++++-----
 2 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/lib/mito/topology/OrientedSimplexFactory.h b/lib/mito/topology/OrientedSimplexFactory.h
index f623aa1..470a8ed 100644
--- a/lib/mito/topology/OrientedSimplexFactory.h
+++ b/lib/mito/topology/OrientedSimplexFactory.h
@@ -128,15 +128,26 @@ namespace mito::topology {
             }
             // otherwise
             else {
-                // create a new oriented simplex riding on simplex {simplex} with orientation
-                // {orientation}
-                auto oriented_simplex = _oriented_simplices.emplace(simplex, orientation);
-
-                // register it in the map
-                _orientations.insert(std::make_pair(tuple, oriented_simplex.id()));
-
-                // and return it
-                return oriented_simplex;
+                // make room for it in the map first, so that if either this or the creation of the
+                // simplex fails, no simplex is left behind unregistered
+                auto [it, _] = _orientations.try_emplace(tuple);
+
+                try {
+                    // create a new oriented simplex riding on simplex {simplex} with orientation
+                    // {orientation}
+                    auto oriented_simplex = _oriented_simplices.emplace(simplex, orientation);
+
+                    // register it in the map
+                    it->second = oriented_simplex.id();
+
+                    // and return it
+                    return oriented_simplex;
+                } catch (...) {
+                    // there is no such oriented simplex
+                    _orientations.erase(it);
+                    // let the caller know
+                    throw;
+                }
             }
         }
 
@@ -154,14 +165,21 @@ namespace mito::topology {
             }
 
             // get the representative of simplices with composition {composition} from the factory
-            const auto & simplex = _simplex_factory.simplex(composition);
+            auto simplex = _simplex_factory.simplex(composition);
 
             // compute the orientation of the current composition with respect to the
             // representative
             orientation_t orientation = _orientation(composition, simplex);
 
-            // return an oriented simplex riding on {simplex} with {orientation}
-            return orientedSimplex(simplex, orientation);
+            try {
+                // return an oriented simplex riding on {simplex} with {orientation}
+                return orientedSimplex(simplex, orientation);
+            } catch (...) {
+                // do not leave behind a footprint that nobody uses
+                _simplex_factory.erase(simplex);
+                // let the caller know
+                throw;
+            }
         }
 
         inline auto orientedSimplex(orientation_t orientation) -> simplex_t<0>
@@ -208,12 +226,12 @@ namespace mito::topology {
             // get the key to this oriented simplex
             auto mytuple = std::make_tuple(id, oriented_simplex->orientation());
 
-            // erase this oriented simplex from the oriented simplex factory
-            _orientations.erase(mytuple);
-
             // erase this oriented simplex from the container
             _oriented_simplices.erase(oriented_simplex);
 
+            // erase this oriented simplex from the oriented simplex factory
+            _orientations.erase(mytuple);
+
             // cleanup the unoriented factory around {footprint}
             _simplex_factory.erase(footprint);
 
diff --git a/lib/mito/topology/SimplexFactory.h b/lib/mito/topology/SimplexFactory.h
index 47442c4..3a292bb 100644
--- a/lib/mito/topology/SimplexFactory.h
+++ b/lib/mito/topology/SimplexFactory.h
@@ -93,14 +93,25 @@ namespace mito::topology {
             // otherwise
             else {
 
-                // emplace simplex in {_simplices}
-                auto simplex = _simplices.emplace(composition);
-
-                // register the simplex in the compositions map
-                _compositions.insert(std::make_pair(representative, simplex.id()));
-
-                // and return it
-                return simplex;
+                // make room for the simplex in the compositions map first, so that if either this or
+                // the creation of the simplex fails, no simplex is left behind unregistered
+                auto [it, _] = _compositions.try_emplace(representative);
+
+                try {
+                    // emplace simplex in {_simplices}
+                    auto simplex = _simplices.emplace(composition);
+
+                    // register the simplex in the compositions map
+                    it->second = simplex.id();
+
+                    // and return it
+                    return simplex;
+                } catch (...) {
+                    // there is no such simplex
+                    _compositions.erase(it);
+                    // let the caller know
+                    throw;
+                }
             }
         }
 
@@ -117,12 +128,12 @@ namespace mito::topology {
             // pick a representative (factor out equivalence relation)
             auto representative = _representative(simplex->composition());
 
-            // erase this simplex from the compositions map
-            _compositions.erase(representative);
-
             // erase this simplex from the repository
             _simplices.erase(simplex);
 
+            // erase this simplex from the compositions map
+            _compositions.erase(representative);
+
             // all done
             return;
         }
-- 
2.43.0


From b1863c786bcd034e8812e51c1db1dc3f7b1d2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 09/42] fix: flipping a diagonal reverses triangles that ride
 on an opposite footprint

---
 lib/mito/topology/FlipDiagonal.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..06f9777 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it as oriented along the boundary of {simplex0}
+                boundary_simplices.insert(
+                    simplex0->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +110,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it as oriented along the boundary of {simplex1}
+                boundary_simplices.insert(
+                    simplex1->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From b4b3c13a72c6875d40e12f09e48cd31f8cbff258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 10/42] fix: the boundary of a mesh ignores the orientation of
 its cells

---
 lib/mito/mesh/Boundary.icc | 12 ++++++++++--
 lib/mito/mesh/Mesh.h       | 28 +++++++++++++++-------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/lib/mito/mesh/Boundary.icc b/lib/mito/mesh/Boundary.icc
index 374cb47..d5b333b 100644
--- a/lib/mito/mesh/Boundary.icc
+++ b/lib/mito/mesh/Boundary.icc
@@ -46,8 +46,16 @@ mito::mesh::Boundary<meshT>::boundary(const mesh_type & mesh) -> boundary_mesh_t
             });
         // loop on the {subcell} on the boundary
         for (const auto & subcell : subcellsOnBoundary) {
-            // add {cell} to the boundary mesh
-            boundary.insert(mito::geometry::geometric_simplex<D>(subcell, cell.nodes()));
+            // the orientation that {cell} induces on {subcell}
+            auto oriented_subcell = subcell;
+            if constexpr (cell_type::order > 1) {
+                // if {cell} is oriented opposite to its footprint, so is {subcell}
+                if (cell.simplex()->orientation() == -1) {
+                    oriented_subcell = topology::flip(subcell);
+                }
+            }
+            // add {oriented_subcell} to the boundary mesh
+            boundary.insert(mito::geometry::geometric_simplex<D>(oriented_subcell, cell.nodes()));
         }
     }
 
diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 1c529b6..4dd0af1 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -69,12 +69,17 @@ namespace mito::mesh {
       private:
         inline auto _register_cell_orientation(const cell_type & cell) -> void
         {
+            // get the orientation of {cell}: if it is opposite to that of its footprint, so are the
+            // orientations it induces on its subcells
+            const auto orientation = cell.simplex()->orientation();
+
             // loop on the subcells of {cell}
             for (const auto & subcell : cell.simplex()->composition()) {
                 // increment the orientations count for this cell footprint id, depending on the
                 // orientation
-                (subcell->orientation() == +1 ? _orientations[subcell->footprint().id()][0] += 1 :
-                                                _orientations[subcell->footprint().id()][1] += 1);
+                (orientation * subcell->orientation() == +1 ?
+                     _orientations[subcell->footprint().id()][0] += 1 :
+                     _orientations[subcell->footprint().id()][1] += 1);
             }
 
             // all done
@@ -107,11 +112,14 @@ namespace mito::mesh {
             bool cell_was_erased = _cells.erase(cell);
             // if the cell was in fact erased from the cell
             if (cell_was_erased) {
+                // get the orientation of {cell}
+                const auto orientation = cell.simplex()->orientation();
+
                 // loop on the subcells of {cell}
                 for (const auto & subcell : cell.simplex()->composition()) {
                     // decrement the orientations count for this cell footprint id, depending on
                     // the orientation
-                    (subcell->orientation() == +1 ?
+                    (orientation * subcell->orientation() == +1 ?
                          _orientations[subcell->footprint().id()][0] -= 1 :
                          _orientations[subcell->footprint().id()][1] -= 1);
 
@@ -162,18 +170,12 @@ namespace mito::mesh {
 
         inline auto isOnBoundary(const cell_topological_family_type<N - 1> & cell) const -> bool
         {
-            // count how many times this oriented cell occurs in the mesh with opposite orientation
-            int count = 0;
-            (cell->orientation() == -1 ? count = _orientations.at(cell->footprint().id())[0] :
-                                         count = _orientations.at(cell->footprint().id())[1]);
+            // get how many times this cell occurs in the mesh with either orientation
+            const auto & count = _orientations.at(cell->footprint().id());
 
             // the cell is on the boundary if it never occurs in the mesh with opposite
-            // orientation
-            if (count == 0) {
-                return true;
-            }
-
-            return false;
+            // orientation, that is if it only ever occurs with one orientation
+            return count[0] == 0 || count[1] == 0;
         }
 
         // insert {cell} in mesh
-- 
2.43.0


From 6da947a592a26703fbdf375d51fa4a0e802c7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 11/42] fix: a failed insertion leaves a cell half way into a
 mesh

---
 lib/mito/mesh/Mesh.h | 92 +++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 26 deletions(-)

diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 4dd0af1..3bc06de 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -72,9 +72,21 @@ namespace mito::mesh {
             // get the orientation of {cell}: if it is opposite to that of its footprint, so are the
             // orientations it induces on its subcells
             const auto orientation = cell.simplex()->orientation();
+            // get the subcells of {cell}
+            const auto composition = cell.simplex()->composition();
+
+            // make room for all subcells first, so that a failure leaves all counts as they were
+            try {
+                for (const auto & subcell : composition) {
+                    _orientations[subcell->footprint().id()];
+                }
+            } catch (...) {
+                _cleanup_orientations(composition);
+                throw;
+            }
 
             // loop on the subcells of {cell}
-            for (const auto & subcell : cell.simplex()->composition()) {
+            for (const auto & subcell : composition) {
                 // increment the orientations count for this cell footprint id, depending on the
                 // orientation
                 (orientation * subcell->orientation() == +1 ?
@@ -86,6 +98,47 @@ namespace mito::mesh {
             return;
         }
 
+        inline auto _unregister_cell_orientation(const cell_type & cell) -> void
+        {
+            // get the orientation of {cell}
+            const auto orientation = cell.simplex()->orientation();
+            // get the subcells of {cell}
+            const auto composition = cell.simplex()->composition();
+
+            // loop on the subcells of {cell}
+            for (const auto & subcell : composition) {
+                // decrement the orientations count for this cell footprint id, depending on
+                // the orientation
+                (orientation * subcell->orientation() == +1 ?
+                     _orientations[subcell->footprint().id()][0] -= 1 :
+                     _orientations[subcell->footprint().id()][1] -= 1);
+            }
+
+            // cleanup orientation map
+            _cleanup_orientations(composition);
+
+            // all done
+            return;
+        }
+
+        // remove the {subcells} that no longer occur in the mesh from the orientation map
+        inline auto _cleanup_orientations(const auto & subcells) -> void
+        {
+            // loop on the subcells
+            for (const auto & subcell : subcells) {
+                // find the orientations count for this cell footprint id
+                auto it = _orientations.find(subcell->footprint().id());
+                // if it is there, but the subcell does not occur in the mesh with any orientation
+                if (it != _orientations.end() && it->second == std::array<int, 2>{ 0, 0 }) {
+                    // remove it
+                    _orientations.erase(it);
+                }
+            }
+
+            // all done
+            return;
+        }
+
       public:
         inline auto nCells() const noexcept -> int
         {
@@ -112,22 +165,8 @@ namespace mito::mesh {
             bool cell_was_erased = _cells.erase(cell);
             // if the cell was in fact erased from the cell
             if (cell_was_erased) {
-                // get the orientation of {cell}
-                const auto orientation = cell.simplex()->orientation();
-
-                // loop on the subcells of {cell}
-                for (const auto & subcell : cell.simplex()->composition()) {
-                    // decrement the orientations count for this cell footprint id, depending on
-                    // the orientation
-                    (orientation * subcell->orientation() == +1 ?
-                         _orientations[subcell->footprint().id()][0] -= 1 :
-                         _orientations[subcell->footprint().id()][1] -= 1);
-
-                    // cleanup orientation map
-                    if (_orientations[subcell->footprint().id()] == std::array<int, 2>{ 0, 0 }) {
-                        _orientations.erase(subcell->footprint().id());
-                    }
-                }
+                // unregister {cell} from the orientation map
+                _unregister_cell_orientation(cell);
             }
 
             // all done
@@ -186,21 +225,22 @@ namespace mito::mesh {
             _register_cell_orientation(cell);
 
             // add the cell to the collection of cells
-            return _cells.emplace(cell);
+            try {
+                return _cells.emplace(cell);
+            } catch (...) {
+                // the cell did not make it into the mesh
+                _unregister_cell_orientation(cell);
+                throw;
+            }
         }
 
         // build a cell based with nodes {nodes} and insert it in mesh
         inline auto insert(const nodes_type & nodes) -> cell_type &
         requires(N > 0)
         {
-            // instantiate cell and add it to the collection of cells
-            auto & cell = _cells.emplace(nodes);
-
-            // register {cell} in the orientation map
-            _register_cell_orientation(cell);
-
-            // all done
-            return cell;
+            // instantiate cell and insert it in the mesh
+            const cell_type cell(nodes);
+            return insert(cell);
         }
 
         // insert {cell} in mesh
-- 
2.43.0


From e652b439f99cb468b403423989ce4cba589a8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 12/42] fix: refining a mesh does not share the midnodes of the
 edges shared by its cells

---
 lib/mito/mesh/externals.h |   1 +
 lib/mito/mesh/tetra.h     | 109 ++++++++++++++++++++++++++------------
 2 files changed, 77 insertions(+), 33 deletions(-)

diff --git a/lib/mito/mesh/externals.h b/lib/mito/mesh/externals.h
index 6b9ac64..ac8c414 100644
--- a/lib/mito/mesh/externals.h
+++ b/lib/mito/mesh/externals.h
@@ -7,6 +7,7 @@
 #pragma once
 
 // externals
+#include <map>
 #include <ranges>
 #include <unordered_map>
 
diff --git a/lib/mito/mesh/tetra.h b/lib/mito/mesh/tetra.h
index b814332..fdcb5a7 100644
--- a/lib/mito/mesh/tetra.h
+++ b/lib/mito/mesh/tetra.h
@@ -9,15 +9,43 @@
 
 namespace mito::mesh {
 
+    // the midnodes of the edges that are subdivided (cells sharing an edge share its midnode)
+    // an edge is identified by the vertices and the points at its two ends
+    template <int D /*spatial dimension*/>
+    using edge_end_t = std::pair<topology::vertex_t, geometry::point_t<D>>;
+    template <int D /*spatial dimension*/>
+    using midnodes_t = std::map<std::pair<edge_end_t<D>, edge_end_t<D>>, geometry::node_t<D>>;
+
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
     requires(coordT::dim == D)
     auto midnode(
         const geometry::node_t<D> & node_a, const geometry::node_t<D> & node_b,
-        geometry::coordinate_system_t<coordT> & coordinate_system) -> geometry::node_t<D>
+        geometry::coordinate_system_t<coordT> & coordinate_system, midnodes_t<D> & midnodes)
+        -> geometry::node_t<D>
     {
-        // return a new node at the midpoint between {node_a} and {node_b}
-        return mito::geometry::node(
+        // the edge between {node_a} and {node_b} (irrespective of the order of the nodes)
+        auto end_a = edge_end_t<D>(node_a->vertex(), node_a->point());
+        auto end_b = edge_end_t<D>(node_b->vertex(), node_b->point());
+        auto edge = (end_b < end_a) ? std::pair(end_b, end_a) : std::pair(end_a, end_b);
+
+        // look up the midnode of this edge
+        auto found = midnodes.find(edge);
+
+        // if another cell already created it
+        if (found != midnodes.end()) {
+            // share it
+            return found->second;
+        }
+
+        // otherwise, create a new node at the midpoint between {node_a} and {node_b}
+        auto node = mito::geometry::node(
             coordinate_system, coordinate_system.midpoint(node_a->point(), node_b->point()));
+
+        // record it
+        midnodes.emplace(edge, node);
+
+        // all done
+        return node;
     }
 
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
@@ -25,10 +53,11 @@ namespace mito::mesh {
     auto subdivide(
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::segment_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::segment_t<D>> & subdivided_mesh, int n_refinements,
+        midnodes_t<D> & midnodes) -> void
     {
         // compute the middle node of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -42,8 +71,8 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, n_refinements - 1, midnodes);
+        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, n_refinements - 1, midnodes);
 
         // all done
         return;
@@ -55,16 +84,17 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, int n_refinements,
+        midnodes_t<D> & midnodes) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->0
-        auto node_20 = midnode(node_2, node_0, coordinate_system);
+        auto node_20 = midnode(node_2, node_0, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -80,10 +110,18 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_12, node_2, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_20, node_01, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(
+            node_0, node_01, node_20, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
+        subdivide(
+            node_01, node_1, node_12, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
+        subdivide(
+            node_12, node_2, node_20, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
+        subdivide(
+            node_20, node_01, node_12, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
 
         // all done
         return;
@@ -95,25 +133,26 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2, const geometry::node_t<D> & node_3,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, int n_refinements,
+        midnodes_t<D> & midnodes) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->2
-        auto node_02 = midnode(node_0, node_2, coordinate_system);
+        auto node_02 = midnode(node_0, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->3
-        auto node_03 = midnode(node_0, node_3, coordinate_system);
+        auto node_03 = midnode(node_0, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->3
-        auto node_13 = midnode(node_1, node_3, coordinate_system);
+        auto node_13 = midnode(node_1, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->3
-        auto node_23 = midnode(node_2, node_3, coordinate_system);
+        auto node_23 = midnode(node_2, node_3, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -135,28 +174,28 @@ namespace mito::mesh {
         // otherwise recursively subdivide the four cells
         subdivide(
             node_0, node_01, node_02, node_03, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_1, node_01, node_13, node_12, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_2, node_02, node_12, node_23, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_03, node_3, node_13, node_23, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_02, node_01, node_13, node_03, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_02, node_03, node_13, node_23, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_01, node_02, node_13, node_12, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_02, node_23, node_13, node_12, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
 
         // all done
         return;
@@ -184,6 +223,9 @@ namespace mito::mesh {
             return subdivided_mesh;
         }
 
+        // the midnodes shared by the cells
+        midnodes_t<cellT::dim> midnodes;
+
         // loop on the cells of the mesh
         for (const auto & cell : mesh.cells()) {
 
@@ -194,14 +236,15 @@ namespace mito::mesh {
             constexpr auto _subdivide =
                 []<size_t... J>(
                     const auto & nodes, geometry::coordinate_system_t<coordT> & coordinate_system,
-                    mesh_t<cellT> & subdivided_mesh, int n_refinements, std::index_sequence<J...>) {
+                    mesh_t<cellT> & subdivided_mesh, int n_refinements,
+                    midnodes_t<cellT::dim> & midnodes, std::index_sequence<J...>) {
                     return subdivide(
-                        nodes[J]..., coordinate_system, subdivided_mesh, n_refinements);
+                        nodes[J]..., coordinate_system, subdivided_mesh, n_refinements, midnodes);
                 };
 
             // recursively subdivide the cell identified by these vertices
             _subdivide(
-                nodes, coordinate_system, subdivided_mesh, n_refinements,
+                nodes, coordinate_system, subdivided_mesh, n_refinements, midnodes,
                 std::make_index_sequence<cellT::order + 1>{});
         }
 
-- 
2.43.0


From 8e544e1af0fac9f043caa57bd423d8a2f26e3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 13/42] fix: iterating on a point cloud uses a dangling
 reference

---
 lib/mito/geometry/PointCloud.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/PointCloud.h b/lib/mito/geometry/PointCloud.h
index 3d011a5..0af9a69 100644
--- a/lib/mito/geometry/PointCloud.h
+++ b/lib/mito/geometry/PointCloud.h
@@ -47,8 +47,8 @@ namespace mito::geometry {
         }
 
         // support for ranged for loops (wrapping grid)
-        inline auto begin() const -> const auto & { return std::begin(_cloud); }
-        inline auto end() const -> const auto & { return std::end(_cloud); }
+        inline auto begin() const { return std::begin(_cloud); }
+        inline auto end() const { return std::end(_cloud); }
 
         auto size() const noexcept -> int { return std::size(_cloud); }
 
-- 
2.43.0


From 62444c6c898ef4b0c7b5e184f91b1c864fb94610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 14/42] fix: a failure of the mesh partitioner is not reported

---
 lib/mito/mesh/metis/Partitioner.icc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/mito/mesh/metis/Partitioner.icc b/lib/mito/mesh/metis/Partitioner.icc
index f6ed0ef..59bf614 100644
--- a/lib/mito/mesh/metis/Partitioner.icc
+++ b/lib/mito/mesh/metis/Partitioner.icc
@@ -105,12 +105,17 @@ mito::mesh::metis::Partitioner<meshT>::_metis_paint_partition(
     // create an array for the procId per node: NOT USEFUL
     std::vector<int> npart(n_vertices, 0);
 
-    [[maybe_unused]] int metisResult = METIS_PartMeshDual(
+    int metisResult = METIS_PartMeshDual(
         &n_elements, &n_vertices, element_index.data(), element_connectivity.data(), NULL, NULL,
         &n_common, &n_partitions, NULL, options, &edgecut, painting.data(), npart.data());
 
-    // assert that metis ran correctly
-    assert(metisResult == 1);
+    // if metis did not run correctly
+    if (metisResult != METIS_OK) {
+        // then there is no painting to speak of: report
+        journal::error_t channel("mito.mesh.metis.partitioner");
+        channel << journal::at(__HERE__) << "METIS failed to partition the mesh (error code "
+                << metisResult << ")" << journal::endl;
+    }
 
     // all done
     return painting;
-- 
2.43.0


From a9c7a3e7bff1b0dc10ceb97996b1be26304d2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 15/42] fix: moving a mesh terminates the program if memory
 runs out

---
 lib/mito/mesh/Mesh.h                    | 2 +-
 lib/mito/utilities/SegmentedAllocator.h | 2 +-
 lib/mito/utilities/SegmentedVector.h    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 3bc06de..b2c5cff 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -54,7 +54,7 @@ namespace mito::mesh {
         inline ~Mesh() = default;
 
         // move constructor
-        inline Mesh(Mesh &&) noexcept = default;
+        inline Mesh(Mesh &&) = default;
 
       private:
         // delete copy constructor
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index 1f7f1b2..9292aca 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -71,7 +71,7 @@ namespace mito::utilities {
         {}
 
         //  move constructor
-        SegmentedAllocator(SegmentedAllocator && other) noexcept :
+        SegmentedAllocator(SegmentedAllocator && other) :
             _segment_size(std::move(other._segment_size)),
             _begin(std::move(other._begin)),
             _end(std::move(other._end)),
diff --git a/lib/mito/utilities/SegmentedVector.h b/lib/mito/utilities/SegmentedVector.h
index 36d23cc..4ec123e 100644
--- a/lib/mito/utilities/SegmentedVector.h
+++ b/lib/mito/utilities/SegmentedVector.h
@@ -43,7 +43,7 @@ namespace mito::utilities {
         SegmentedVector(int segment_size) : _resources(segment_size) {};
 
         // default move constructor
-        SegmentedVector(SegmentedVector &&) noexcept = default;
+        SegmentedVector(SegmentedVector &&) = default;
 
         // destructor
         ~SegmentedVector()
-- 
2.43.0


From fa4a3085b2872bacfc97acf82284e84bf45919cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 16/42] fix: a failed creation of a node leaves its point in
 the coordinate system

---
 lib/mito/geometry/factories.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/mito/geometry/factories.h b/lib/mito/geometry/factories.h
index 2de98c0..092c7c7 100644
--- a/lib/mito/geometry/factories.h
+++ b/lib/mito/geometry/factories.h
@@ -43,12 +43,15 @@ namespace mito::geometry {
         auto & cloud = point_cloud<D>();
         // instantiate a point
         auto point = cloud.point();
-        // place it in space
-        coordinate_system.place(point, coords);
         // instantiate a vertex
         auto vertex = topology::vertex();
         // instantiate a node binding a vertex to a point
-        return node_t<D>(vertex, point);
+        auto node = node_t<D>(vertex, point);
+        // place the point in space (last, so that no point is left behind in the coordinate system
+        // if any of the above fails)
+        coordinate_system.place(point, coords);
+        // all done
+        return node;
     }
 
     // segment factory
-- 
2.43.0


From aaca105053dd35b285aa532880c69b4baae02cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 17/42] fix: a summit file that cannot be written is not
 reported

---
 lib/mito/io/summit/MeshSummitWriter.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/mito/io/summit/MeshSummitWriter.h b/lib/mito/io/summit/MeshSummitWriter.h
index b62bf07..9041c32 100644
--- a/lib/mito/io/summit/MeshSummitWriter.h
+++ b/lib/mito/io/summit/MeshSummitWriter.h
@@ -70,6 +70,9 @@ namespace mito::io {
 
             // create the output file
             std::ofstream outfile(filename);
+            if (!outfile.is_open()) {
+                throw std::runtime_error("writer: Mesh file could not be opened");
+            }
 
             // populate the file heading
             // TOFIX: number of materials is always 1 for now
@@ -104,6 +107,11 @@ namespace mito::io {
             // close the file
             outfile.close();
 
+            // if any part of the mesh could not be written
+            if (!outfile) {
+                throw std::runtime_error("writer: Mesh file could not be written");
+            }
+
             // all done
             return;
         }
-- 
2.43.0


From ead6c8e4c91ff396e7148508fbf247640cd2e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 18/42] fix: a damaged summit file is read as if it were intact

---
 lib/mito/io/summit/externals.h |  1 +
 lib/mito/io/summit/reader.h    | 67 +++++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/lib/mito/io/summit/externals.h b/lib/mito/io/summit/externals.h
index a6ff20d..d87f5b1 100644
--- a/lib/mito/io/summit/externals.h
+++ b/lib/mito/io/summit/externals.h
@@ -8,6 +8,7 @@
 
 
 // externals
+#include <algorithm>
 #include <fstream>
 
 
diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..f9615db 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -8,6 +8,23 @@
 
 
 namespace mito::io::summit {
+
+    // helper function to read the next {value} from file, whose absence means the file is damaged
+    template <class T>
+    auto readValue(std::ifstream & fileStream, T & value) -> void
+    {
+        // read the value from file
+        fileStream >> value;
+
+        // if the value is missing, malformed, or could not be read
+        if (!fileStream) {
+            throw std::runtime_error("reader: Mesh file is truncated or malformed");
+        }
+
+        // all done
+        return;
+    }
+
     template <int D, geometry::coordinates_c coordT>
     requires(coordT::dim == D)
     auto readVertices(
@@ -20,7 +37,7 @@ namespace mito::io::summit {
             tensor::vector_t<D> coordinates;
             for (int d = 0; d < D; ++d) {
                 // read point coordinates
-                fileStream >> coordinates[d];
+                readValue(fileStream, coordinates[d]);
             }
 
             // the type of coordinates
@@ -51,7 +68,13 @@ namespace mito::io::summit {
         for (int i = 0; i < N; ++i) {
             // read from file the id of the node
             int id = 0;
-            fileStream >> id;
+            readValue(fileStream, id);
+            // if there is no such node, or the cell already has it
+            if (id < 1 || id > std::ssize(nodes)
+                || std::find(std::begin(index), std::begin(index) + i, id - 1)
+                       != std::begin(index) + i) {
+                throw std::runtime_error("reader: Mesh file has a cell with invalid connectivity");
+            }
             // start from zero (the summit format starts counting from one)
             --id;
             // take a note of it
@@ -98,7 +121,7 @@ namespace mito::io::summit {
         // read label for cell
         // TOFIX: Ignored for now
         std::string cell_set_id;
-        fileStream >> cell_set_id;
+        readValue(fileStream, cell_set_id);
 
         // all done
         return;
@@ -113,13 +136,16 @@ namespace mito::io::summit {
         for (int i = 0; i < N_cells; ++i) {
             // read the cell type from file
             int cell_type = 0;
-            fileStream >> cell_type;
+            readValue(fileStream, cell_type);
 
-            // if the cell type read from file matches with the cell of the mesh to be populated
-            if (cell_type == summit::cell<cellT>::type) {
-                // read the element and insert it in the mesh
-                readElement<galerkinT>(fileStream, mesh, nodes);
+            // if the cell type read from file does not match with the cell of the mesh to be
+            // populated
+            if (cell_type != summit::cell<cellT>::type) {
+                throw std::runtime_error("reader: Mesh file has a cell of another type");
             }
+
+            // read the element and insert it in the mesh
+            readElement<galerkinT>(fileStream, mesh, nodes);
         }
 
         // all done
@@ -144,34 +170,39 @@ namespace mito::io::summit {
 
         // read dimension of physical space
         int dim = 0;
-        fileStream >> dim;
+        readValue(fileStream, dim);
 
         // the dimension of the physical space
         constexpr int D = cellT::dim;
 
-        // assert this mesh object is of same dimension of the mesh being read
-        assert(D == dim);
+        // check that this mesh object is of same dimension of the mesh being read
+        if (dim != D) {
+            throw std::runtime_error("reader: Mesh file is of another dimension");
+        }
 
         // instantiate mesh
         auto mesh = mesh::mesh<cellT>();
 
         // read number of vertices
         int N_vertices = 0;
-        fileStream >> N_vertices;
-        // reserve space for nodes
-        std::vector<geometry::node_t<D>> nodes;
-        nodes.reserve(N_vertices);
+        readValue(fileStream, N_vertices);
 
         // read number of cells
         int N_cells = 0;
-        fileStream >> N_cells;
+        readValue(fileStream, N_cells);
 
         // read number of cell types
         int N_cell_types = 0;
-        fileStream >> N_cell_types;
+        readValue(fileStream, N_cell_types);
 
         // QUESTION: Not sure that we need this...
-        assert(N_cell_types == 1);
+        if (N_vertices < 0 || N_cells < 0 || N_cell_types != 1) {
+            throw std::runtime_error("reader: Mesh file has an invalid heading");
+        }
+
+        // reserve space for nodes
+        std::vector<geometry::node_t<D>> nodes;
+        nodes.reserve(N_vertices);
 
         // read the nodes
         readVertices(fileStream, coordinate_system, N_vertices, nodes);
-- 
2.43.0


From 773a51767f6f665aa57435ae8fd35b3dcc627011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 19/42] fix: a summit file that names its type of element
 cannot be read back

---
 lib/mito/io/summit/externals.h | 1 +
 lib/mito/io/summit/reader.h    | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/lib/mito/io/summit/externals.h b/lib/mito/io/summit/externals.h
index d87f5b1..8204cf3 100644
--- a/lib/mito/io/summit/externals.h
+++ b/lib/mito/io/summit/externals.h
@@ -10,6 +10,7 @@
 // externals
 #include <algorithm>
 #include <fstream>
+#include <limits>
 
 
 // end of file
diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index f9615db..f75d894 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -123,6 +123,9 @@ namespace mito::io::summit {
         std::string cell_set_id;
         readValue(fileStream, cell_set_id);
 
+        // skip whatever else there is about this cell (e.g. the type of element)
+        fileStream.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+
         // all done
         return;
     }
-- 
2.43.0


From e74dd4873e59ebd8d3b0c8c6ab03bfeeee6179fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 20/42] fix: an error of the linear algebra library is not
 reported

PetscCallVoid returns from the calling function without reporting, so a failed call or a solve that
did not converge was taken for a success and meaningless numbers were returned as the solution.
---
 .../backend/petsc/PETScKrylovSolver.cc        | 23 +++++++---
 .../backend/petsc/PETScLinearSystem.cc        | 44 +++++++++----------
 .../backend/petsc/PETScLinearSystem.icc       | 12 ++---
 .../matrix_solvers/backend/petsc/externals.h  | 23 +++++++++-
 4 files changed, 65 insertions(+), 37 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index c054596..3debc41 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -25,9 +25,9 @@ auto
 mito::matrix_solvers::petsc::PETScKrylovSolver::create() -> void
 {
     // create the Krylov solver
-    PetscCallVoid(KSPCreate(PETSC_COMM_WORLD, &_ksp));
-    PetscCallVoid(KSPSetOperators(_ksp, _linear_system._matrix, _linear_system._matrix));
-    PetscCallVoid(KSPSetOptionsPrefix(_ksp, _options_prefix.c_str()));
+    mito::petsc::check(KSPCreate(PETSC_COMM_WORLD, &_ksp));
+    mito::petsc::check(KSPSetOperators(_ksp, _linear_system._matrix, _linear_system._matrix));
+    mito::petsc::check(KSPSetOptionsPrefix(_ksp, _options_prefix.c_str()));
 
     // all done
     return;
@@ -41,7 +41,7 @@ mito::matrix_solvers::petsc::PETScKrylovSolver::destroy() -> void
     _linear_system.destroy();
 
     // destroy the Krylov solver
-    PetscCallVoid(KSPDestroy(&_ksp));
+    mito::petsc::check(KSPDestroy(&_ksp));
 
     // all done
     return;
@@ -93,10 +93,10 @@ mito::matrix_solvers::petsc::PETScKrylovSolver::set_options(const options_type &
     auto prefixed_options = prepend_options_prefix(options, _options_prefix);
 
     // record the options with PETSc
-    PetscCallVoid(PetscOptionsInsertString(PETSC_NULLPTR, prefixed_options.c_str()));
+    mito::petsc::check(PetscOptionsInsertString(PETSC_NULLPTR, prefixed_options.c_str()));
 
     // configure the Krylov solver with the options
-    PetscCallVoid(KSPSetFromOptions(_ksp));
+    mito::petsc::check(KSPSetFromOptions(_ksp));
 
     // // show all options that have been set
     // PetscOptionsView(PETSC_NULLPTR, PETSC_VIEWER_STDOUT_WORLD);
@@ -113,7 +113,16 @@ mito::matrix_solvers::petsc::PETScKrylovSolver::solve() -> void
     _linear_system.assemble();
 
     // solve the linear system
-    PetscCallVoid(KSPSolve(_ksp, _linear_system._rhs, _linear_system._solution));
+    mito::petsc::check(KSPSolve(_ksp, _linear_system._rhs, _linear_system._solution));
+
+    // a solution is only available if the solver converged
+    KSPConvergedReason reason;
+    mito::petsc::check(KSPGetConvergedReason(_ksp, &reason));
+    if (reason < 0) {
+        throw std::runtime_error(
+            "the solution of linear system '" + _linear_system.label()
+            + "' did not converge: " + KSPConvergedReasons[reason]);
+    }
 
     // all done
     return;
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 3e96648..2d2e334 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -26,20 +26,20 @@ mito::matrix_solvers::petsc::PETScLinearSystem::create(index_type size) -> void
     _n_equations = size;
 
     // create the vectors
-    PetscCallVoid(VecCreate(PETSC_COMM_WORLD, &_solution));
-    PetscCallVoid(VecSetSizes(_solution, PETSC_DECIDE, size));
-    PetscCallVoid(VecCreate(PETSC_COMM_WORLD, &_rhs));
-    PetscCallVoid(VecSetSizes(_rhs, PETSC_DECIDE, size));
+    mito::petsc::check(VecCreate(PETSC_COMM_WORLD, &_solution));
+    mito::petsc::check(VecSetSizes(_solution, PETSC_DECIDE, size));
+    mito::petsc::check(VecCreate(PETSC_COMM_WORLD, &_rhs));
+    mito::petsc::check(VecSetSizes(_rhs, PETSC_DECIDE, size));
 
     // create the matrix
-    PetscCallVoid(MatCreate(PETSC_COMM_WORLD, &_matrix));
-    PetscCallVoid(MatSetSizes(_matrix, PETSC_DECIDE, PETSC_DECIDE, size, size));
+    mito::petsc::check(MatCreate(PETSC_COMM_WORLD, &_matrix));
+    mito::petsc::check(MatSetSizes(_matrix, PETSC_DECIDE, PETSC_DECIDE, size, size));
 
     // set the default options (do not allow the user to control the options for matrix and
     // vectors)
-    PetscCallVoid(MatSetFromOptions(_matrix));
-    PetscCallVoid(VecSetFromOptions(_rhs));
-    PetscCallVoid(VecSetFromOptions(_solution));
+    mito::petsc::check(MatSetFromOptions(_matrix));
+    mito::petsc::check(VecSetFromOptions(_rhs));
+    mito::petsc::check(VecSetFromOptions(_solution));
 
     // all done
     return;
@@ -50,9 +50,9 @@ auto
 mito::matrix_solvers::petsc::PETScLinearSystem::destroy() -> void
 {
     // destroy the matrix, right-hand side, solution
-    PetscCallVoid(MatDestroy(&_matrix));
-    PetscCallVoid(VecDestroy(&_solution));
-    PetscCallVoid(VecDestroy(&_rhs));
+    mito::petsc::check(MatDestroy(&_matrix));
+    mito::petsc::check(VecDestroy(&_solution));
+    mito::petsc::check(VecDestroy(&_rhs));
 
     // all done
     return;
@@ -71,12 +71,12 @@ auto
 mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
 {
     // assemble matrix
-    PetscCallVoid(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
-    PetscCallVoid(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
+    mito::petsc::check(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
+    mito::petsc::check(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
 
     // // show the matrix and the right-hand-side
-    // PetscCallVoid(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
-    // PetscCallVoid(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
+    // mito::petsc::check(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
+    // mito::petsc::check(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
 
     // all done
     return;
@@ -88,7 +88,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::insert_matrix_value(
     index_type row, index_type col, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    PetscCallVoid(MatSetValue(_matrix, row, col, value, INSERT_VALUES));
+    mito::petsc::check(MatSetValue(_matrix, row, col, value, INSERT_VALUES));
 
     // all done
     return;
@@ -100,7 +100,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::add_matrix_value(
     index_type row, index_type col, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    PetscCallVoid(MatSetValue(_matrix, row, col, value, ADD_VALUES));
+    mito::petsc::check(MatSetValue(_matrix, row, col, value, ADD_VALUES));
 
     // all done
     return;
@@ -112,7 +112,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::insert_rhs_value(
     index_type row, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    PetscCallVoid(VecSetValue(_rhs, row, value, INSERT_VALUES));
+    mito::petsc::check(VecSetValue(_rhs, row, value, INSERT_VALUES));
 
     // all done
     return;
@@ -124,7 +124,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::add_rhs_value(
     index_type row, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    PetscCallVoid(VecSetValue(_rhs, row, value, ADD_VALUES));
+    mito::petsc::check(VecSetValue(_rhs, row, value, ADD_VALUES));
 
     // all done
     return;
@@ -146,10 +146,10 @@ mito::matrix_solvers::petsc::PETScLinearSystem::print() const -> void
 
     // print the matrix
     channel << "Matrix:" << journal::endl;
-    PetscCallVoid(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
+    mito::petsc::check(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
     // print the right-hand side
     channel << "Right-hand side:" << journal::endl;
-    PetscCallVoid(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
+    mito::petsc::check(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
 
     // all done
     return;
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
index 37957a9..9bbd038 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
@@ -14,22 +14,22 @@ template <class solutionT>
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solution) const -> void
 {
-    // get a pointer to the beginning of {_solution}
-    const scalar_type * u;
-    PetscCallVoid(VecGetArrayRead(_solution, &u));
-
     // get the size of the vector
     PetscInt size;
-    PetscCallVoid(VecGetSize(_solution, &size));
+    mito::petsc::check(VecGetSize(_solution, &size));
 
     // check that the size of {_solution} matches the size of {solution}
     assert(size == (int) std::size(solution));
 
+    // get a pointer to the beginning of {_solution}
+    const scalar_type * u;
+    mito::petsc::check(VecGetArrayRead(_solution, &u));
+
     // copy {_solution} into {solution}
     std::copy(u, u + size, std::begin(solution));
 
     // restore the array after reading
-    PetscCallVoid(VecRestoreArrayRead(_solution, &u));
+    mito::petsc::check(VecRestoreArrayRead(_solution, &u));
 
     // all done
     return;
diff --git a/lib/mito/matrix_solvers/backend/petsc/externals.h b/lib/mito/matrix_solvers/backend/petsc/externals.h
index 08ed8f3..8cee149 100644
--- a/lib/mito/matrix_solvers/backend/petsc/externals.h
+++ b/lib/mito/matrix_solvers/backend/petsc/externals.h
@@ -11,6 +11,7 @@
 #include <string>
 #include <vector>
 #include <cassert>
+#include <stdexcept>
 
 // support
 #include "../../../journal.h"
@@ -21,16 +22,34 @@
 
 namespace mito::petsc {
 
+    // raise an exception if a call to petsc was not successful
+    inline auto check(PetscErrorCode code) -> void
+    {
+        // all good
+        if (code == PETSC_SUCCESS) {
+            return;
+        }
+
+        // get a description of the error
+        const char * text = nullptr;
+        static_cast<void>(PetscErrorMessage(code, &text, nullptr));
+
+        // report
+        throw std::runtime_error(
+            "PETSc error " + std::to_string(static_cast<int>(code)) + ": "
+            + (text ? text : "unknown error"));
+    }
+
     // initialize petsc
     inline auto initialize() -> void
     {
-        PetscCallVoid(PetscInitializeNoArguments());
+        check(PetscInitializeNoArguments());
     }
 
     // finalize petsc
     inline auto finalize() -> void
     {
-        PetscCallVoid(PetscFinalize());
+        check(PetscFinalize());
     }
 
 }
-- 
2.43.0


From e6a8476868f37e286d59df7b641fa6b0b35a4c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 21/42] fix: entries of a linear system are lost when
 insertions and additions are mixed

PETSc rejects an addition after an insertion (and the other way around) unless the entries are
assembled in between. The right-hand side was never assembled.
---
 .../backend/petsc/PETScLinearSystem.cc        | 80 +++++++++++++++++--
 .../backend/petsc/PETScLinearSystem.h         | 18 +++++
 2 files changed, 92 insertions(+), 6 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 2d2e334..efbc062 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -71,8 +71,10 @@ auto
 mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
 {
     // assemble matrix
-    mito::petsc::check(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
-    mito::petsc::check(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
+    _assemble_matrix(MAT_FINAL_ASSEMBLY);
+
+    // assemble right-hand side
+    _assemble_rhs();
 
     // // show the matrix and the right-hand-side
     // mito::petsc::check(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
@@ -88,7 +90,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::insert_matrix_value(
     index_type row, index_type col, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    mito::petsc::check(MatSetValue(_matrix, row, col, value, INSERT_VALUES));
+    _set_matrix_value(row, col, value, INSERT_VALUES);
 
     // all done
     return;
@@ -100,7 +102,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::add_matrix_value(
     index_type row, index_type col, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    mito::petsc::check(MatSetValue(_matrix, row, col, value, ADD_VALUES));
+    _set_matrix_value(row, col, value, ADD_VALUES);
 
     // all done
     return;
@@ -112,7 +114,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::insert_rhs_value(
     index_type row, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    mito::petsc::check(VecSetValue(_rhs, row, value, INSERT_VALUES));
+    _set_rhs_value(row, value, INSERT_VALUES);
 
     // all done
     return;
@@ -124,7 +126,73 @@ mito::matrix_solvers::petsc::PETScLinearSystem::add_rhs_value(
     index_type row, const scalar_type & value) -> void
 {
     // delegate to PETSc
-    mito::petsc::check(VecSetValue(_rhs, row, value, ADD_VALUES));
+    _set_rhs_value(row, value, ADD_VALUES);
+
+    // all done
+    return;
+}
+
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::_set_matrix_value(
+    index_type row, index_type col, const scalar_type & value, InsertMode mode) -> void
+{
+    // PETSc does not allow to mix insertions and additions without assembling in between
+    if (_matrix_mode != NOT_SET_VALUES && _matrix_mode != mode) {
+        _assemble_matrix(MAT_FLUSH_ASSEMBLY);
+    }
+
+    // delegate to PETSc
+    mito::petsc::check(MatSetValue(_matrix, row, col, value, mode));
+
+    // take note of the mode
+    _matrix_mode = mode;
+
+    // all done
+    return;
+}
+
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::_set_rhs_value(
+    index_type row, const scalar_type & value, InsertMode mode) -> void
+{
+    // PETSc does not allow to mix insertions and additions without assembling in between
+    if (_rhs_mode != NOT_SET_VALUES && _rhs_mode != mode) {
+        _assemble_rhs();
+    }
+
+    // delegate to PETSc
+    mito::petsc::check(VecSetValue(_rhs, row, value, mode));
+
+    // take note of the mode
+    _rhs_mode = mode;
+
+    // all done
+    return;
+}
+
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::_assemble_matrix(MatAssemblyType type) -> void
+{
+    // assemble the matrix
+    mito::petsc::check(MatAssemblyBegin(_matrix, type));
+    mito::petsc::check(MatAssemblyEnd(_matrix, type));
+
+    // no entry is pending
+    _matrix_mode = NOT_SET_VALUES;
+
+    // all done
+    return;
+}
+
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::_assemble_rhs() -> void
+{
+    // assemble the right-hand side
+    mito::petsc::check(VecAssemblyBegin(_rhs));
+    mito::petsc::check(VecAssemblyEnd(_rhs));
+
+    // no entry is pending
+    _rhs_mode = NOT_SET_VALUES;
 
     // all done
     return;
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
index 5f89f78..c1f701f 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
@@ -68,6 +68,20 @@ namespace mito::matrix_solvers::petsc {
         // print the linear system
         auto print() const -> void;
 
+      private:
+        // set a matrix entry according to {mode}
+        auto _set_matrix_value(index_type, index_type, const scalar_type &, InsertMode mode)
+            -> void;
+
+        // set a right-hand side entry according to {mode}
+        auto _set_rhs_value(index_type, const scalar_type &, InsertMode mode) -> void;
+
+        // assemble the matrix
+        auto _assemble_matrix(MatAssemblyType) -> void;
+
+        // assemble the right-hand side
+        auto _assemble_rhs() -> void;
+
       private:
         // a flag to recall if this instance has initialized PETSc
         bool _initialized_petsc;
@@ -81,6 +95,10 @@ namespace mito::matrix_solvers::petsc {
         vector_type _solution;
         // the number of equations
         int _n_equations;
+        // the mode (insert or add) of the matrix entries set since the matrix was last assembled
+        InsertMode _matrix_mode = NOT_SET_VALUES;
+        // the mode of the right-hand side entries set since the right-hand side was last assembled
+        InsertMode _rhs_mode = NOT_SET_VALUES;
     };
 
 }    // namespace mito
-- 
2.43.0


From 9f05d491933574e8cae6bdc4db7882bd69dd5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 22/42] fix: a solver keeps solving the system it was created
 for after the system is created again

---
 .../matrix_solvers/backend/petsc/PETScKrylovSolver.cc     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index 3debc41..db4af05 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -112,6 +112,14 @@ mito::matrix_solvers::petsc::PETScKrylovSolver::solve() -> void
     // assemble the linear system
     _linear_system.assemble();
 
+    // if the linear system was re-created, let go of the old matrix
+    Mat matrix;
+    mito::petsc::check(KSPGetOperators(_ksp, &matrix, PETSC_NULLPTR));
+    if (matrix != _linear_system._matrix) {
+        mito::petsc::check(KSPReset(_ksp));
+        mito::petsc::check(KSPSetOperators(_ksp, _linear_system._matrix, _linear_system._matrix));
+    }
+
     // solve the linear system
     mito::petsc::check(KSPSolve(_ksp, _linear_system._rhs, _linear_system._solution));
 
-- 
2.43.0


From f3119e5f430445f5f20db7df21bb1b4880e62a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 23/42] fix: objects of the linear algebra library are leaked,
 or destroyed without having been created

A creation that fails now releases what it created, creating twice releases the first objects, a
destruction that fails releases the remaining objects, and destroying what was never created does
nothing.
---
 .../backend/petsc/PETScKrylovSolver.cc        | 29 ++++++---
 .../backend/petsc/PETScKrylovSolver.h         |  2 +-
 .../backend/petsc/PETScLinearSystem.cc        | 64 +++++++++++++------
 .../backend/petsc/PETScLinearSystem.h         |  9 ++-
 4 files changed, 71 insertions(+), 33 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index db4af05..6913de5 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -24,24 +24,37 @@ mito::matrix_solvers::petsc::PETScKrylovSolver::~PETScKrylovSolver() {}
 auto
 mito::matrix_solvers::petsc::PETScKrylovSolver::create() -> void
 {
-    // create the Krylov solver
-    mito::petsc::check(KSPCreate(PETSC_COMM_WORLD, &_ksp));
-    mito::petsc::check(KSPSetOperators(_ksp, _linear_system._matrix, _linear_system._matrix));
-    mito::petsc::check(KSPSetOptionsPrefix(_ksp, _options_prefix.c_str()));
+    // release the solver created earlier, if any
+    mito::petsc::check(KSPDestroy(&_ksp));
+
+    try {
+        // create the Krylov solver
+        mito::petsc::check(KSPCreate(PETSC_COMM_WORLD, &_ksp));
+        mito::petsc::check(
+            KSPSetOperators(_ksp, _linear_system._matrix, _linear_system._matrix));
+        mito::petsc::check(KSPSetOptionsPrefix(_ksp, _options_prefix.c_str()));
+    } catch (...) {
+        // release the solver
+        static_cast<void>(KSPDestroy(&_ksp));
+        // and report
+        throw;
+    }
 
     // all done
     return;
 }
 
-// destroy the Krylov solver
 auto
 mito::matrix_solvers::petsc::PETScKrylovSolver::destroy() -> void
 {
-    // free the memory of the linear system
+    // destroy the Krylov solver
+    auto status = KSPDestroy(&_ksp);
+
+    // free the memory of the linear system (also if the solver could not be destroyed)
     _linear_system.destroy();
 
-    // destroy the Krylov solver
-    mito::petsc::check(KSPDestroy(&_ksp));
+    // report
+    mito::petsc::check(status);
 
     // all done
     return;
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.h b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.h
index 8bf8025..0e555b8 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.h
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.h
@@ -49,7 +49,7 @@ namespace mito::matrix_solvers::petsc {
         // the prefix for the PETSc options
         options_type _options_prefix;
         // the Krylov solver
-        solver_type _ksp;
+        solver_type _ksp = PETSC_NULLPTR;
     };
 
 }    // namespace mito
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index efbc062..0460675 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -22,43 +22,65 @@ mito::matrix_solvers::petsc::PETScLinearSystem::~PETScLinearSystem() {}
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::create(index_type size) -> void
 {
+    // release what was created earlier, if any
+    destroy();
+
+    try {
+        // create the vectors
+        mito::petsc::check(VecCreate(PETSC_COMM_WORLD, &_solution));
+        mito::petsc::check(VecSetSizes(_solution, PETSC_DECIDE, size));
+        mito::petsc::check(VecCreate(PETSC_COMM_WORLD, &_rhs));
+        mito::petsc::check(VecSetSizes(_rhs, PETSC_DECIDE, size));
+
+        // create the matrix
+        mito::petsc::check(MatCreate(PETSC_COMM_WORLD, &_matrix));
+        mito::petsc::check(MatSetSizes(_matrix, PETSC_DECIDE, PETSC_DECIDE, size, size));
+
+        // set the default options (do not allow the user to control the options for matrix and
+        // vectors)
+        mito::petsc::check(MatSetFromOptions(_matrix));
+        mito::petsc::check(VecSetFromOptions(_rhs));
+        mito::petsc::check(VecSetFromOptions(_solution));
+    } catch (...) {
+        // release what was created so far
+        static_cast<void>(_release());
+        // and report
+        throw;
+    }
+
     // take note of the number of equations
     _n_equations = size;
 
-    // create the vectors
-    mito::petsc::check(VecCreate(PETSC_COMM_WORLD, &_solution));
-    mito::petsc::check(VecSetSizes(_solution, PETSC_DECIDE, size));
-    mito::petsc::check(VecCreate(PETSC_COMM_WORLD, &_rhs));
-    mito::petsc::check(VecSetSizes(_rhs, PETSC_DECIDE, size));
-
-    // create the matrix
-    mito::petsc::check(MatCreate(PETSC_COMM_WORLD, &_matrix));
-    mito::petsc::check(MatSetSizes(_matrix, PETSC_DECIDE, PETSC_DECIDE, size, size));
-
-    // set the default options (do not allow the user to control the options for matrix and
-    // vectors)
-    mito::petsc::check(MatSetFromOptions(_matrix));
-    mito::petsc::check(VecSetFromOptions(_rhs));
-    mito::petsc::check(VecSetFromOptions(_solution));
-
     // all done
     return;
 }
 
-// free memory for the matrix, right-hand side, and solution
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::destroy() -> void
 {
     // destroy the matrix, right-hand side, solution
-    mito::petsc::check(MatDestroy(&_matrix));
-    mito::petsc::check(VecDestroy(&_solution));
-    mito::petsc::check(VecDestroy(&_rhs));
+    mito::petsc::check(_release());
 
     // all done
     return;
 }
 
-// get the label of the linear system
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::_release() -> PetscErrorCode
+{
+    // no entries are pending
+    _matrix_mode = NOT_SET_VALUES;
+    _rhs_mode = NOT_SET_VALUES;
+
+    // destroy the matrix, right-hand side, solution (each of them also if another one fails)
+    auto matrix_status = MatDestroy(&_matrix);
+    auto solution_status = VecDestroy(&_solution);
+    auto rhs_status = VecDestroy(&_rhs);
+
+    // return the first error
+    return matrix_status ? matrix_status : solution_status ? solution_status : rhs_status;
+}
+
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::label() const -> label_type
 {
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
index c1f701f..12a42f3 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
@@ -69,6 +69,9 @@ namespace mito::matrix_solvers::petsc {
         auto print() const -> void;
 
       private:
+        // destroy the matrix, right-hand side, and solution, and return the first error
+        auto _release() -> PetscErrorCode;
+
         // set a matrix entry according to {mode}
         auto _set_matrix_value(index_type, index_type, const scalar_type &, InsertMode mode)
             -> void;
@@ -88,11 +91,11 @@ namespace mito::matrix_solvers::petsc {
         // the label for the linear system (this is used to prefix PETSc options)
         label_type _label;
         // the matrix
-        matrix_type _matrix;
+        matrix_type _matrix = PETSC_NULLPTR;
         // the right-hand side vector
-        vector_type _rhs;
+        vector_type _rhs = PETSC_NULLPTR;
         // the solution vector
-        vector_type _solution;
+        vector_type _solution = PETSC_NULLPTR;
         // the number of equations
         int _n_equations;
         // the mode (insert or add) of the matrix entries set since the matrix was last assembled
-- 
2.43.0


From aff2ab17a1b5be04054c27f68aed4085b72274e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 24/42] fix: a negative value of a solver option is taken for
 the name of an option

---
 lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc | 7 ++++---
 lib/mito/matrix_solvers/backend/petsc/externals.h          | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index 6913de5..8cc7230 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -78,10 +78,11 @@ namespace {
         std::string word_string = options.substr(pos_old, pos_new - pos_old);
         options_vector.push_back(word_string);
 
-        // for each word, if the leading character is '-', insert the {prefix} between '-' and the
-        // rest of the word
+        // for each word, if it is the name of an option (a '-' followed by a letter: words such as
+        // '-1.0' are the value of one), insert the {prefix} between '-' and the rest of the word
         for (auto & word : options_vector) {
-            if (word[0] == '-') {
+            if (std::size(word) > 1 && word[0] == '-'
+                && std::isalpha(static_cast<unsigned char>(word[1]))) {
                 word.erase(0, 1);
                 word = "-" + prefix + word;
             }
diff --git a/lib/mito/matrix_solvers/backend/petsc/externals.h b/lib/mito/matrix_solvers/backend/petsc/externals.h
index 8cee149..3437d2f 100644
--- a/lib/mito/matrix_solvers/backend/petsc/externals.h
+++ b/lib/mito/matrix_solvers/backend/petsc/externals.h
@@ -11,6 +11,7 @@
 #include <string>
 #include <vector>
 #include <cassert>
+#include <cctype>
 #include <stdexcept>
 
 // support
-- 
2.43.0


From 79bfc6a3bf8151fa7f57f0e141d5638b0adfdb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 25/42] fix: a solver whose factorization failed once cannot
 solve any other system

---
 .../backend/petsc/PETScKrylovSolver.cc             | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index 8cc7230..6ce3192 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -135,12 +135,18 @@ mito::matrix_solvers::petsc::PETScKrylovSolver::solve() -> void
     }
 
     // solve the linear system
-    mito::petsc::check(KSPSolve(_ksp, _linear_system._rhs, _linear_system._solution));
+    auto status = KSPSolve(_ksp, _linear_system._rhs, _linear_system._solution);
 
     // a solution is only available if the solver converged
-    KSPConvergedReason reason;
-    mito::petsc::check(KSPGetConvergedReason(_ksp, &reason));
-    if (reason < 0) {
+    KSPConvergedReason reason = KSP_CONVERGED_ITERATING;
+    if (status == PETSC_SUCCESS) {
+        status = KSPGetConvergedReason(_ksp, &reason);
+    }
+    if (status != PETSC_SUCCESS || reason < 0) {
+        // do not let the failure (e.g. of the factorization) outlive this solve
+        static_cast<void>(KSPReset(_ksp));
+        // report
+        mito::petsc::check(status);
         throw std::runtime_error(
             "the solution of linear system '" + _linear_system.label()
             + "' did not converge: " + KSPConvergedReasons[reason]);
-- 
2.43.0


From 619faf5d6dd2031d4205b234e0d35b686953e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 26/42] fix: a discrete system accumulates over its earlier
 assemblies

Solving a discrete system a second time assembled the matrix and the right-hand side on top of what
was left from the first time.
---
 lib/mito/fem/DiscreteSystem.h                 |  3 +++
 .../backend/petsc/PETScLinearSystem.cc        | 23 +++++++++++++++++++
 .../backend/petsc/PETScLinearSystem.h         |  3 +++
 3 files changed, 29 insertions(+)

diff --git a/lib/mito/fem/DiscreteSystem.h b/lib/mito/fem/DiscreteSystem.h
index 57709a9..9c6df86 100644
--- a/lib/mito/fem/DiscreteSystem.h
+++ b/lib/mito/fem/DiscreteSystem.h
@@ -147,6 +147,9 @@ namespace mito::fem {
             // check that the number of equations matches that of the linear system
             assert(_n_equations == _linear_system.n_equations());
 
+            // forget about what was assembled earlier
+            _linear_system.zero();
+
             // QUESTION: can we flip the element and block loops? What is the expected layout in
             // memory?
             //
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 0460675..cb969ee 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -88,6 +88,29 @@ mito::matrix_solvers::petsc::PETScLinearSystem::label() const -> label_type
     return _label;
 }
 
+// set all entries of the matrix and of the right-hand side to zero
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::zero() -> void
+{
+    // make sure the matrix is ready to be accessed
+    mito::petsc::check(MatSetUp(_matrix));
+
+    // assemble the entries that are pending, if any
+    if (_matrix_mode != NOT_SET_VALUES) {
+        _assemble_matrix(MAT_FLUSH_ASSEMBLY);
+    }
+    if (_rhs_mode != NOT_SET_VALUES) {
+        _assemble_rhs();
+    }
+
+    // zero the matrix and the right-hand side
+    mito::petsc::check(MatZeroEntries(_matrix));
+    mito::petsc::check(VecZeroEntries(_rhs));
+
+    // all done
+    return;
+}
+
 // assemble the linear system
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
index 12a42f3..8abdfb6 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
@@ -43,6 +43,9 @@ namespace mito::matrix_solvers::petsc {
         // get the label of the linear system
         auto label() const -> label_type;
 
+        // set all entries of the matrix and of the right-hand side to zero
+        auto zero() -> void;
+
         // assemble the linear system
         auto assemble() -> void;
 
-- 
2.43.0


From 70cd1bc7d0ae1e3681b07bed8fac82b3300041bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 27/42] fix: constraining a node that is not in the mesh
 dereferences the end of a map

---
 lib/mito/fem/elements/seg1/DiscretizerCG.h | 5 +++--
 lib/mito/fem/elements/tri1/DiscretizerCG.h | 5 +++--
 lib/mito/fem/elements/tri2/DiscretizerCG.h | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/mito/fem/elements/seg1/DiscretizerCG.h b/lib/mito/fem/elements/seg1/DiscretizerCG.h
index 0043129..43da4e8 100644
--- a/lib/mito/fem/elements/seg1/DiscretizerCG.h
+++ b/lib/mito/fem/elements/seg1/DiscretizerCG.h
@@ -52,9 +52,10 @@ namespace mito::fem {
             // the nodes directly
             for (const auto & node : constraints.domain()) {
                 // get the discretization node associated with the mesh node from the map
-                auto it = node_map.find(node);
+                // (raises an error if the mesh node is not in the mesh)
+                const auto & discretization_node = node_map.at(node);
                 // add the node to the constrained nodes
-                constrained_nodes.insert(it->second);
+                constrained_nodes.insert(discretization_node);
             }
 
             // all done
diff --git a/lib/mito/fem/elements/tri1/DiscretizerCG.h b/lib/mito/fem/elements/tri1/DiscretizerCG.h
index 2c4f2bc..3319373 100644
--- a/lib/mito/fem/elements/tri1/DiscretizerCG.h
+++ b/lib/mito/fem/elements/tri1/DiscretizerCG.h
@@ -53,9 +53,10 @@ namespace mito::fem {
             for (const auto & cell : constraints.domain().cells()) {
                 for (const auto & node : cell.nodes()) {
                     // get the discretization node associated with the mesh node from the map
-                    auto it = node_map.find(node);
+                    // (raises an error if the mesh node is not in the mesh)
+                    const auto & discretization_node = node_map.at(node);
                     // add the node to the constrained nodes
-                    constrained_nodes.insert(it->second);
+                    constrained_nodes.insert(discretization_node);
                 }
             }
 
diff --git a/lib/mito/fem/elements/tri2/DiscretizerCG.h b/lib/mito/fem/elements/tri2/DiscretizerCG.h
index 6ab2511..a68fba8 100644
--- a/lib/mito/fem/elements/tri2/DiscretizerCG.h
+++ b/lib/mito/fem/elements/tri2/DiscretizerCG.h
@@ -86,9 +86,10 @@ namespace mito::fem {
             for (const auto & cell : constraints.domain().cells()) {
                 for (const auto & node : cell.nodes()) {
                     // get the discretization node associated with the mesh node from the map
-                    auto it = node_map.find(node);
+                    // (raises an error if the mesh node is not in the mesh)
+                    const auto & discretization_node = node_map.at(node);
                     // add the node to the constrained nodes
-                    constrained_nodes.insert(it->second);
+                    constrained_nodes.insert(discretization_node);
                 }
                 auto node_0 = node_map.at(cell.nodes()[0]);
                 auto node_1 = node_map.at(cell.nodes()[1]);
-- 
2.43.0


From 48f82f48ffad04395fdd076674273c39b7b1531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 28/42] fix: the H1 norm measures gradients with respect to the
 parametric coordinates

The gradients of the localized fields are those with respect to the coordinates of the reference
element: push them forward to the physical coordinates.
---
 lib/mito/fem/norms.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..94b3c53 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -58,15 +58,22 @@ namespace mito::fem {
             auto u1_local = localize(u1, element);
             // localize {u2} on this element
             auto u2_local = localize(u2, element);
-            // assemble the gradient of the solution field on this element
+            // assemble the gradient of {u1} on this element (with respect to the parametric
+            // coordinates)
             auto u1_local_gradient = fields::gradient(u1_local);
-            // localize the gradient of the exact solution on this element
+            // assemble the gradient of {u2} on this element (with respect to the parametric
+            // coordinates)
             auto u2_local_gradient = fields::gradient(u2_local);
+            // the difference of the gradients with respect to the physical coordinates
+            auto gradient_difference = functions::function(
+                [&](const typename quadratureRuleT::quadrature_point_type & xi) {
+                    return (u1_local_gradient(xi) - u2_local_gradient(xi))
+                         * tensor::inverse(element.jacobian()(xi));
+                });
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-                  + blocks::l2_norm_block<element_type, quadratureRuleT>(
-                        u1_local_gradient - u2_local_gradient)
+                  + blocks::l2_norm_block<element_type, quadratureRuleT>(gradient_difference)
                         .compute(element);
         }
 
-- 
2.43.0


From fb4ddba4e618fbe80254b30690303904a89b4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 29/42] fix: a quadrature field cannot be built on a mesh

---
 lib/mito/discrete/factories.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/mito/discrete/factories.h b/lib/mito/discrete/factories.h
index 4dffe31..bfc8533 100644
--- a/lib/mito/discrete/factories.h
+++ b/lib/mito/discrete/factories.h
@@ -13,10 +13,16 @@ namespace mito::discrete {
     template <class Y, int Q, mesh::mesh_c meshT>
     constexpr auto quadrature_field(const meshT & mesh, std::string name)
     {
-        // build a quadrature field on the cells collected from the mesh
-        // ({Q} quad points per cell)
-        return quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(
-            mesh.cells(), name);
+        // build a quadrature field ({Q} quad points per cell)
+        quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y> field(name);
+
+        // populate it with the simplices of the cells in the mesh
+        for (const auto & cell : mesh.cells()) {
+            field.insert(cell.simplex());
+        }
+
+        // all done
+        return field;
     }
 
     // mesh field factory
-- 
2.43.0


From 570cd926f810bf30e3d197d419b41a287fb0bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 30/42] fix: a VTK file that could not be written is not
 reported

---
 lib/mito/io/vtk/GridVTKWriter.h         | 4 +++-
 lib/mito/io/vtk/ParallelGridVTKWriter.h | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/mito/io/vtk/GridVTKWriter.h b/lib/mito/io/vtk/GridVTKWriter.h
index c40cad1..3d2db83 100644
--- a/lib/mito/io/vtk/GridVTKWriter.h
+++ b/lib/mito/io/vtk/GridVTKWriter.h
@@ -40,7 +40,9 @@ namespace mito::io::vtk {
             writer->SetInputData(_grid);
 #endif
             // write the grid to file
-            writer->Write();
+            if (!writer->Write()) {
+                throw std::runtime_error("writer: VTK file could not be written");
+            }
 
             // all done
             return;
diff --git a/lib/mito/io/vtk/ParallelGridVTKWriter.h b/lib/mito/io/vtk/ParallelGridVTKWriter.h
index 5ae2ba2..9b948a2 100644
--- a/lib/mito/io/vtk/ParallelGridVTKWriter.h
+++ b/lib/mito/io/vtk/ParallelGridVTKWriter.h
@@ -49,7 +49,7 @@ namespace mito::io::vtk {
             writer->SetInputData(_grid);
 #endif
             // write this task's grid to file
-            writer->Write();
+            bool written = writer->Write();
 
             // create a new parallel grid writer
             auto pwriter = vtkSmartPointer<vtkXMLPUnstructuredGridWriter>::New();
@@ -61,11 +61,16 @@ namespace mito::io::vtk {
             // write the pieces associated with this task only
             pwriter->SetStartPiece(task_id);
             pwriter->SetEndPiece(task_id);
-            pwriter->Write();
+            written = pwriter->Write() && written;
 
             // finalize the controller
             controller->Finalize(mpiInitializedExternally);
 
+            // if any of the files could not be written
+            if (!written) {
+                throw std::runtime_error("writer: VTK file could not be written");
+            }
+
             // all done
             return;
         }
-- 
2.43.0


From d9f0644c268e6ee0fe2b19cf32e565131058377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 31/42] fix: manifolds and integrators of the Python module
 outlive what they refer to

---
 extensions/mito/mito.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 7c15abb..d71a91f 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -148,7 +148,9 @@ PYBIND11_MODULE(mito, m)
                 [](const mesh_triangle_2D_t & mesh, const coordinate_system_2D_t & coord_system) {
                     // create the manifold
                     return mito::manifolds::manifold(mesh, coord_system);
-                }))
+                }),
+            // the manifold refers to its mesh and to its coordinate system
+            mito::py::keep_alive<1, 2>(), mito::py::keep_alive<1, 3>())
         // done
         ;
 
@@ -160,7 +162,9 @@ PYBIND11_MODULE(mito, m)
         // the constructor
         .def(
             // the implementation
-            mito::py::init<const manifold_triangle_2D_t &>())
+            mito::py::init<const manifold_triangle_2D_t &>(),
+            // the integrator refers to its manifold
+            mito::py::keep_alive<1, 2>())
         // interface
         // integrate a scalar field
         .def(
-- 
2.43.0


From aac90a7755a1b3bb1c663394125206e96c4567a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 32/42] fix: subscripts of coordinates in the Python module are
 not checked

---
 extensions/mito/mito.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index d71a91f..0e06ab3 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -41,7 +41,14 @@ PYBIND11_MODULE(mito, m)
         .def(
             "__getitem__",
             // the implementation
-            [](const coordinates_3D_t & self, int i) { return self[i]; })
+            [](const coordinates_3D_t & self, int i) {
+                // if there is no such coordinate
+                if (i < 0 || i >= 3) {
+                    throw mito::py::index_error("no such coordinate");
+                }
+                // otherwise, easy enough
+                return self[i];
+            })
         // done
         ;
 
@@ -66,7 +73,14 @@ PYBIND11_MODULE(mito, m)
         .def(
             "__getitem__",
             // the implementation
-            [](const coordinates_2D_t & self, int i) { return self[i]; })
+            [](const coordinates_2D_t & self, int i) {
+                // if there is no such coordinate
+                if (i < 0 || i >= 2) {
+                    throw mito::py::index_error("no such coordinate");
+                }
+                // otherwise, easy enough
+                return self[i];
+            })
         // done
         ;
 
-- 
2.43.0


From 606db447be064e3260c7a6f05fc95c0fdcdaaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 33/42] fix: a linear combination of functions of the same type
 cannot be differentiated

---
 lib/mito/functions/derivation_rules.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index e535412..d29a59b 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -108,8 +108,11 @@ namespace mito::functions {
     constexpr auto derivative(const LinearCombination<T, Funcs...> & f)
     {
         // the derivative of a linear combination is the linear combination of the derivatives
-        return linear_combination(
-            f.coefficients(), derivative<I>(std::get<Funcs>(f.functions()))...);
+        return std::apply(
+            [&](const auto &... funcs) {
+                return linear_combination(f.coefficients(), derivative<I>(funcs)...);
+            },
+            f.functions());
     }
 }
 
-- 
2.43.0


From 8b66b0f3cfe722af7b8c1dd757828bc0263db0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 34/42] fix: a form made of a functor that is not a temporary
 refers to it

---
 lib/mito/tensor/api.h       |  9 +++++----
 lib/mito/tensor/factories.h | 13 +++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/mito/tensor/api.h b/lib/mito/tensor/api.h
index 8340e8e..5c2fa72 100644
--- a/lib/mito/tensor/api.h
+++ b/lib/mito/tensor/api.h
@@ -95,13 +95,14 @@ namespace mito::tensor {
     template <class F>
     using one_form_t = Form<1, F>;
 
-    // factory for one-forms
+    // factory for one-forms (the form stores its own copy of the functor {f})
     template <class F>
-    constexpr auto one_form(F && f) -> one_form_t<F>;
+    constexpr auto one_form(F && f) -> one_form_t<std::remove_cvref_t<F>>
+    requires(!vector_c<std::remove_cvref_t<F>>);
 
-    // factory for P-forms
+    // factory for P-forms (the form stores its own copy of the functor {f})
     template <int P, class F>
-    constexpr auto form(F && f) -> form_t<P, F>;
+    constexpr auto form(F && f) -> form_t<P, std::remove_cvref_t<F>>;
 
     // the tensor product of two one-forms
     constexpr auto tensor(const one_form_c auto & a_tilda, const one_form_c auto & b_tilda);
diff --git a/lib/mito/tensor/factories.h b/lib/mito/tensor/factories.h
index 008b86e..cf29da8 100644
--- a/lib/mito/tensor/factories.h
+++ b/lib/mito/tensor/factories.h
@@ -9,18 +9,19 @@
 
 namespace mito::tensor {
 
-    // factory for one-forms
+    // factory for one-forms (the form stores its own copy of the functor {f})
     template <class F>
-    constexpr auto one_form(F && f) -> one_form_t<F>
+    constexpr auto one_form(F && f) -> one_form_t<std::remove_cvref_t<F>>
+    requires(!vector_c<std::remove_cvref_t<F>>)
     {
-        return one_form_t<F>(std::forward<F>(f));
+        return one_form_t<std::remove_cvref_t<F>>(std::forward<F>(f));
     }
 
-    // factory for P-forms
+    // factory for P-forms (the form stores its own copy of the functor {f})
     template <int P, class F>
-    constexpr auto form(F && f) -> form_t<P, F>
+    constexpr auto form(F && f) -> form_t<P, std::remove_cvref_t<F>>
     {
-        return form_t<P, F>(std::forward<F>(f));
+        return form_t<P, std::remove_cvref_t<F>>(std::forward<F>(f));
     }
 
     // construct a one-form that, given a vector {vector} and a (symmetric) matrix {matrix},
-- 
2.43.0


From cbf98d636d0f3007dfd13a57ebaafdb6fa4212af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 35/42] fix: the wedge product of a one-form and a two-form is
 not alternating

---
 lib/mito/tensor/wedge.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..d5fcdad 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -66,20 +66,14 @@ namespace mito::tensor {
     constexpr auto wedge(const form_t<P1, F1> & b_tilda, const form_t<P2, F2> & a_tilda)
     requires(P1 == 1 && P2 == 2)
     {
-        // positive sign if P1 is even, negative sign if P1 is odd
-        constexpr int sign = (P1 % 2 ? +1 : -1);
-
+        // return a {form} that, when contracted with {x}, {y} and {z}...
         return form<P1 + P2>(
-                   [a_tilda, b_tilda]<class X, class Y, class Z>(
-                       const X & x, const Y & y, const Z & z) -> auto {
-                       return wedge(b_tilda(x), a_tilda)(y, z);
-                   })
-             + sign
-                   * form<P1 + P2>(
-                       [a_tilda, b_tilda]<class X, class Y, class Z>(
-                           const X & x, const Y & y, const Z & z) -> auto {
-                           return wedge(b_tilda, a_tilda(x, y))(z);
-                       });
+            [a_tilda, b_tilda]<class X, class Y, class Z>(
+                const X & x, const Y & y, const Z & z) -> auto {
+                // ... returns the sum over the arguments of {b_tilda}, with alternating signs
+                return wedge(b_tilda(x), a_tilda)(y, z) - wedge(b_tilda(y), a_tilda)(x, z)
+                     + wedge(b_tilda, a_tilda(x, y))(z);
+            });
     }
 }
 
-- 
2.43.0


From 270dbca735fb7b71a45b2e5ed03b06aaf8b35114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 36/42] fix: the form that is metric equivalent to a vector is
 wrong in polar and spherical coordinates

---
 lib/mito/geometry/metric_space.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..25ba02b 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -88,7 +88,11 @@ namespace mito::geometry {
         const fields::vector_field_c auto & vector)
     {
         // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        return functions::function([vector](const coordinates_type & x) {
+            // returns the form that contracts vectors with {vector(x)} (the components of vector
+            // fields are those in the orthonormal frame, so no metric is needed)
+            return tensor::one_form(vector(x));
+        });
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From 1d3e40b17e879fbeaffa0934a24f7dbf0471df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 37/42] fix: a function of space cannot be differentiated along
 a curve

---
 lib/mito/functions/derivation_rules.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index d29a59b..ee2c81f 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -70,9 +70,9 @@ namespace mito::functions {
         return derivative<I>(f.f1())(f.f2()) * derivative<I>(f.f2());
     }
 
-    // the chain rule for the I-th first partial derivative (f1(f2(x)) with f2 tensor function)
+    // the chain rule for the I-th first partial derivative (f1(f2(x)) with f2 tensor valued)
     template <int I, class F1, class F2>
-    requires(tensor_function_c<F2>)
+    requires(tensor_valued_function_c<F2>)
     constexpr auto derivative(const Composition<F1, F2> & f)
     {
         // the number of components of the vector (output of F2)
-- 
2.43.0


From 2103928b5acb41040672bcfeb944ca8274325c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 38/42] fix: integrals in polar and spherical coordinates were
 not a number

---
 lib/mito/geometry/GeometricSimplex.h | 39 ++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/GeometricSimplex.h b/lib/mito/geometry/GeometricSimplex.h
index e5bd3aa..e3e87ea 100644
--- a/lib/mito/geometry/GeometricSimplex.h
+++ b/lib/mito/geometry/GeometricSimplex.h
@@ -83,6 +83,27 @@ namespace mito::geometry {
             return topology.simplex<N>({ _nodes[J]->vertex()... });
         }
 
+        // helper to assemble the parametrization x0 + xi<1> * (x1 - x0) + ...
+        template <class coordinateSystemT, int... a>
+        constexpr auto _assemble_from_first_node(
+            const coordinateSystemT & coordinate_system, tensor::integer_sequence<a...>) const
+        {
+            // the type of coordinates
+            using coordinates_type = typename coordinateSystemT::coordinates_type;
+
+            // get the coordinates of the first node
+            const auto x0 = coordinate_system.coordinates(_nodes[0]->point());
+            // get the vectors going from the first node to the others
+            const auto edges = std::array<tensor::vector_t<D>, N>{ (
+                coordinate_system.coordinates(_nodes[a + 1]->point()) - x0)... };
+
+            // return the function mapping parametric coordinates to coordinates
+            return functions::function(
+                [x0, edges](const parametric_coordinates_type & xi) -> coordinates_type {
+                    return x0 + ((edges[a] * reference_simplex_type::template xi<a + 1>(xi)) + ...);
+                });
+        }
+
       public:
         // constructor with an existing oriented simplex and a collection of nodes
         constexpr GeometricSimplex(const simplex_type & simplex, const nodes_type & nodes) :
@@ -153,8 +174,22 @@ namespace mito::geometry {
                       * (coordinate_system.coordinates(nodes[a]->point()) - origin)))
                     + ...);
             };
-            return _assemble(
-                _nodes, coordinate_system, tensor::make_integer_sequence<n_vertices>{});
+
+            // the type of coordinates
+            using coordinates_type = typename coordinateSystemT::coordinates_type;
+
+            if constexpr (
+                N == 0 || std::is_same_v<coordinates_type, coordinates_t<D, CARTESIAN>>) {
+                // all done
+                return _assemble(
+                    _nodes, coordinate_system, tensor::make_integer_sequence<n_vertices>{});
+            } else {
+                // there are no position vectors stemming from the origin in curvilinear coordinates
+                // (the origin is a singular point): start from the first node instead and assemble
+                // the parametrization as x0 + xi<1> * (x1 - x0) + ...
+                return _assemble_from_first_node(
+                    coordinate_system, tensor::make_integer_sequence<N>{});
+            }
         }
 
       private:
-- 
2.43.0


From dcdbb1ed7f0f44a91f826ab14810798606882cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 39/42] fix: a material consistency test refers to numbers that
 are gone

The test kept references to the material, the perturbation and the
tolerance it was made with, which may be temporaries. Keep them by value.
---
 lib/mito/materials/MaterialConsistencyTest.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mito/materials/MaterialConsistencyTest.h b/lib/mito/materials/MaterialConsistencyTest.h
index 04f6f3c..30c54c3 100644
--- a/lib/mito/materials/MaterialConsistencyTest.h
+++ b/lib/mito/materials/MaterialConsistencyTest.h
@@ -152,11 +152,11 @@ class mito::materials::MaterialConsistencyTest {
 
   private:
     // the material
-    const material_type & _material;
+    const material_type _material;
     // the perturbation for the numerical derivatives
-    const real & _perturbation;
+    const real _perturbation;
     // the tolerance for passing the test
-    const real & _tolerance;
+    const real _tolerance;
 };
 
 
-- 
2.43.0


From fd9076e9b02d43c7620df2a40135e56ed3a98060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 40/42] fix: an assembly block refers to a field that is gone

A source term (or norm) block kept a reference to the field it was made
with, which may be an expression that does not outlive the call that
makes the block. Keep the field by value, as composed fields do.
---
 lib/mito/fem/blocks/L2NormBlock.h     | 2 +-
 lib/mito/fem/blocks/SourceTermBlock.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/fem/blocks/L2NormBlock.h b/lib/mito/fem/blocks/L2NormBlock.h
index 0d0a00f..736db13 100644
--- a/lib/mito/fem/blocks/L2NormBlock.h
+++ b/lib/mito/fem/blocks/L2NormBlock.h
@@ -64,7 +64,7 @@ namespace mito::fem::blocks {
 
       private:
         // the function to compute the L2 norm of
-        const function_type & _function;
+        const function_type _function;
     };
 
 }    // namespace mito
diff --git a/lib/mito/fem/blocks/SourceTermBlock.h b/lib/mito/fem/blocks/SourceTermBlock.h
index ed9ecb8..95bd1db 100644
--- a/lib/mito/fem/blocks/SourceTermBlock.h
+++ b/lib/mito/fem/blocks/SourceTermBlock.h
@@ -74,7 +74,7 @@ namespace mito::fem::blocks {
 
       private:
         // the source term field
-        const source_field_type & _source_field;
+        const source_field_type _source_field;
     };
 
 }    // namespace mito
-- 
2.43.0


From e6cf0220f7308cdc6822779da8e41de9c32ce5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:30 +0000
Subject: [PATCH 41/42] fix: compose a composition of functions with a further
 function

Within the class, 'Composition' names the class itself: (f(g))(h) did not compile.
---
 lib/mito/functions/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index c0f2f87..81fe35e 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -514,7 +514,7 @@ namespace mito::functions {
         template <function_c H>
         constexpr auto operator()(const H & f) const
         {
-            return Composition(*this, f);
+            return functions::Composition(*this, f);
         }
 
         // subscript operator: only available if {output_type} is subscriptable
-- 
2.43.0


From 81aa765c85d1e297a9d4fa0723f79bcd276a6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:30 +0000
Subject: [PATCH 42/42] fix: transpose, invert and divide by what already is a
 transpose, an inverse or a reciprocal

The deduction of the template argument took the copy constructor, so that
transpose(transpose(f)) was transpose(f), inverse(inverse(f)) was inverse(f)
and 1 / Reciprocal(f) was Reciprocal(f).
---
 lib/mito/functions/algebra.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mito/functions/algebra.h b/lib/mito/functions/algebra.h
index 4a127c2..c429827 100644
--- a/lib/mito/functions/algebra.h
+++ b/lib/mito/functions/algebra.h
@@ -82,19 +82,19 @@ namespace mito::functions {
     constexpr auto operator/(
         const tensor::tensor_or_scalar_c auto & a, const scalar_valued_function_c auto & f)
     {
-        return a * Reciprocal(f);
+        return a * Reciprocal<std::remove_cvref_t<decltype(f)>>(f);
     }
 
     // f1 / f2
     constexpr auto operator/(const function_c auto & f1, const scalar_valued_function_c auto & f2)
     {
-        return f1 * Reciprocal(f2);
+        return f1 * Reciprocal<std::remove_cvref_t<decltype(f2)>>(f2);
     }
 
     // f transposed
     constexpr auto transpose(const function_c auto & f)
     {
-        return Transpose(f);
+        return Transpose<std::remove_cvref_t<decltype(f)>>(f);
     }
 
     // determinant of f
@@ -106,7 +106,7 @@ namespace mito::functions {
     // f inverse
     constexpr auto inverse(const function_c auto & f)
     {
-        return Inverse(f);
+        return Inverse<std::remove_cvref_t<decltype(f)>>(f);
     }
 
     // dyadic product of vector-valued functions f and g
-- 
2.43.0

