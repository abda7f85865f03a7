From 07f23a843cfd364c8d49bd8a2718a54ac06d154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:32 +0000
Subject: [PATCH 01/19] fix: Container::update keeps an item in its quadtree
 leaf only if its new position is looked up there

---
 src/utils/Container.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 1fc3946..bfb5466 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -194,7 +194,9 @@ public:
   {
     auto quad = qtree_.get_leaf( item.xy() );
 
-    if ( in_on_rect(xy_new, quad->lowleft(), quad->upright()) )
+    // The item remains in its leaf only if the new position is also
+    // looked up in that leaf (positions on borders belong to one leaf)
+    if ( quad && quad == qtree_.get_leaf( xy_new ) )
     {
       item.xy_ = xy_new;
       return true;
-- 
2.43.0


From 02ac3823adc75581583d00dcdcac20e738ff7654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:01 +0000
Subject: [PATCH 02/19] fix: report a mesh file that could not be written

MeshWriter::write() returned true even if the output file could not be
opened, and the application ignored the result and exited successfully.
---
 src/algorithm/MeshWriter.h |  7 +++----
 src/app/TQMeshApp.h        | 14 +++++++++++---
 src/utils/VtkIO.h          |  7 +++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index b382b83..3517cd7 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -90,7 +90,8 @@ private:
 
     outfile.close();
 
-    return true;
+    // Tell if the file could not be opened or not be written completely
+    return !outfile.fail();
 
   } // MeshWriter::write_to_txt()
 
@@ -184,9 +185,7 @@ private:
     writer.add_cell_data( max_angle, "max_angle", 1 );
     writer.add_cell_data( cell_quality, "cell_quality", 1 );
 
-    writer.write( fullpath );
-
-    return true;
+    return writer.write( fullpath );
 
   } // MeshWriter::write_to_vtu()
 
diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 59d0a18..01814a1 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -205,21 +205,29 @@ private:
     LOG(INFO) << "\n";
 
     // Export the mesh
+    bool written = false;
+
     if ( output_format_ == "VTU" || output_format_ == "vtu" )
     {
       std::string filename { output_prefix_ + ".vtu" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
+      written = mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
     }
     else if ( output_format_ == "TXT" || output_format_ == "txt" )
     {
       std::string filename { output_prefix_ + ".txt" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
+      written = mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
     }
     else
     {
-      mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
+      written = mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
+    }
+
+    if ( !written )
+    {
+      LOG(ERROR) << "Failed to write the mesh file.";
+      return false;
     }
 
     // Check if meshing algorithm succeeded
diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 7add4a4..9d3f5ce 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -177,9 +177,9 @@ public:
   }
 
   /*------------------------------------------------------------------
-  | Write the VTU file
+  | Write the VTU file - returns false if this was not possible
   ------------------------------------------------------------------*/
-  void write(const std::string& file_name)
+  bool write(const std::string& file_name)
   {
     std::ofstream outfile;
     outfile.open(file_name);
@@ -221,6 +221,9 @@ public:
 
     outfile.close();
 
+    // Tell if the file could not be opened or not be written completely
+    return !outfile.fail();
+
   } // VtuWriter::write()
 
 private:
-- 
2.43.0


From a2a2d3d5e327203db576782e19b586ed92a4de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:15 +0000
Subject: [PATCH 03/19] fix: a boundary shape that gets reversed keeps the
 colors of its edges

The color i of a shape belongs to the edge between its vertices i and i+1,
no matter in which direction this edge is added to the boundary.
---
 src/algorithm/Boundary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index fb168cb..1c1035a 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -363,7 +363,7 @@ private:
       for (int i = N-1; i >= 0; --i)
       {
         int j = MOD(i+1, N);
-        add_edge( *new_verts[j], *new_verts[i], e_colors[j] );
+        add_edge( *new_verts[j], *new_verts[i], e_colors[i] );
       }
     }
   };
-- 
2.43.0


From 2b0057feb744fb5772d382a69bff61074e573ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:15 +0000
Subject: [PATCH 04/19] fix: QuadTree::get_nearest finds the nearest item for
 all query points

It dereferenced a null pointer for query points outside of the tree and
found nothing, if the leaf of the query was empty and too small.
---
 src/utils/QuadTree.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 31cbb9f..853bbcd 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -188,6 +188,10 @@ public:
   {
     auto quad = get_leaf(query);
 
+    // Query points outside of the tree have no leaf
+    if ( !quad )
+      quad = this;
+
     V min_dist_sqr = 4 * quad->scale() * quad->scale();
     T* winner      = nullptr;
 
@@ -199,6 +203,19 @@ public:
     
     get_items(query, 4 * sqrt(min_dist_sqr), found);
 
+    for ( auto item : found )
+      if ( qfun(item, query, min_dist_sqr ) )
+        winner = item;
+
+    if ( winner )
+      return winner;
+
+    // There is no item in the vicinity of the query -> consider all 
+    min_dist_sqr = std::numeric_limits<V>::max();
+    found.clear();
+
+    get_items(lowleft_, upright_, found);
+
     for ( auto item : found )
       if ( qfun(item, query, min_dist_sqr ) )
         winner = item;
-- 
2.43.0


From 5749b6a51d5f1fcc5f157399b4f3c7b485c965f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 05/19] fix: smoothing checks all four corners of adjacent
 quads

A moved vertex could leave a quad with an inverted corner.
---
 src/algorithm/SmoothingStrategy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index ec3570a..0a8fc6e 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -244,6 +244,10 @@ protected:
           return false;
         if ( orientation(v2, v3, v4) != Orientation::CCW )
           return false;
+        if ( orientation(v3, v4, v1) != Orientation::CCW )
+          return false;
+        if ( orientation(v4, v1, v2) != Orientation::CCW )
+          return false;
       }
     }
 
-- 
2.43.0


From aff458904c14bee35b4c247e4e2090e35c199a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 06/19] fix: Domain::extent no longer always contains the
 origin

---
 src/algorithm/Domain.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a64271..cdeb90f 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -222,6 +222,12 @@ public:
     Vec2d x_extent { 0.0, 0.0 };
     Vec2d y_extent { 0.0, 0.0 };
 
+    if ( verts_.size() < 1 )
+      return {x_extent, y_extent};
+
+    x_extent = { verts_.front().x(), verts_.front().x() };
+    y_extent = { verts_.front().y(), verts_.front().y() };
+
     for ( const auto& v : verts_ )
     {
       x_extent[0] = MIN( x_extent[0], v->x() );
-- 
2.43.0


From 8b47cfb1b7fc87c8f2cb9d71ab6cf749f822c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 07/19] fix: domain check reports boundaries without edges
 instead of crashing

---
 src/algorithm/EntityChecks.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 0df8450..41de6e4 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -62,6 +62,12 @@ public:
     // Check if domain boundaries are traversable
     for ( const auto& boundary : domain )
     {
+      if ( boundary->size() < 1 )
+      {
+        LOG(ERROR) << "Invalid domain: Boundary without edges.";
+        return false;
+      }
+
       Edge& e_start = boundary->edges()[0];
 
       if ( !boundary->is_traversable(e_start, e_start) )
-- 
2.43.0


From b9c9473b45700c2e240276d354e02b0ea1d3c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 08/19] fix: merge_meshes reports a failed merge

---
 src/algorithm/MeshGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 8132eb1..61c2737 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -134,7 +134,7 @@ public:
       meshes_.erase( it );
     }
 
-    return true;
+    return success;
 
   } // MeshGenerator::merge_meshes()
 
-- 
2.43.0


From 38fea9afd947773cd4bc2f1a07bbf1cbb831f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 09/19] fix: an invalid size function expression is reported as
 error

---
 src/app/size_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/size_function.cpp b/src/app/size_function.cpp
index e2c8831..30e34bc 100644
--- a/src/app/size_function.cpp
+++ b/src/app/size_function.cpp
@@ -33,7 +33,9 @@ UserSizeFunction init_size_function(const std::string& expr)
   symbol_table.add_variable("x", x_size_function);
   symbol_table.add_variable("y", y_size_function);
   expression.register_symbol_table(symbol_table);
-  parser.compile(expr, expression);
+
+  if ( !parser.compile(expr, expression) )
+    throw_error("Invalid size function expression: " + expr);
 
   UserSizeFunction f = [](const Vec2d& p) 
   { 
-- 
2.43.0


From 94d4bbffbb96738e4d9c2c83b5a72ebc7b4682c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 10/19] fix: VecND::sum accumulates in the component type

---
 src/utils/VecND.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/VecND.h b/src/utils/VecND.h
index 3a65fb5..fbd4ad5 100644
--- a/src/utils/VecND.h
+++ b/src/utils/VecND.h
@@ -295,7 +295,7 @@ public:
   ------------------------------------------------------------------*/
   T sum() const
   { 
-    return std::accumulate(cbegin(), cend(), 0);
+    return std::accumulate(cbegin(), cend(), T{});
   }
 
   /*------------------------------------------------------------------
-- 
2.43.0


From 27d03ad4ba8b84c4163a78b0c2ce534797d512bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 11/19] fix: exterior boundary edges may not refer to vertices
 beyond the last one

---
 src/app/TQMeshApp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 01814a1..0eb6589 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -610,7 +610,7 @@ private:
         int    m  = para_extr_bdry.get_value(2, i);
 
         // Throw error if indices are larger than number of vertices
-        if ( i1 > n_vertices || i2 > n_vertices )
+        if ( i1 >= n_vertices || i2 >= n_vertices )
           throw_error("Invalid exterior boundary definition: " 
             "Some vertex index is larger that the number of "
             "provided input vertices.");
-- 
2.43.0


From daed137c5728bdfd2ded738aa9261c93a09b0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 12/19] fix: error messages for missing mesh parameters name
 the mesh

---
 src/app/TQMeshApp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 0eb6589..cdcbda9 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -864,10 +864,10 @@ private:
   void query_mandatory_parameters(ParaReader& mesh_reader)
   {
     if ( !mesh_reader.query<std::string>("output_prefix") )
-      throw_error("No output file prefix defined for mesh " + mesh_id_ );
+      throw_error("No output file prefix defined for mesh " + std::to_string(mesh_id_) );
 
     if ( !mesh_reader.query<std::string>("output_format") )
-      throw_error("No output format defined for mesh " + mesh_id_ ); 
+      throw_error("No output format defined for mesh " + std::to_string(mesh_id_) ); 
 
     output_prefix_ = mesh_reader.get_value<std::string>("output_prefix");
     output_format_ = mesh_reader.get_value<std::string>("output_format");
@@ -876,7 +876,7 @@ private:
     print_parameter<std::string>(mesh_reader, "output_format");
 
     if ( !mesh_reader.query<std::string>("size_function") )
-      throw_error("Invalid size function definition for mesh " + mesh_id_);
+      throw_error("Invalid size function definition for mesh " + std::to_string(mesh_id_));
 
   } // MeshConstruction::query_mandatory_parameters()
 
-- 
2.43.0


From fe2c40ab21b5271b419223808cf1c75d3ae0dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:25 +0000
Subject: [PATCH 13/19] fix: double edge removal inspects all quads

---
 src/algorithm/MeshCleanup.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index a98a48e..87f5a2d 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -228,11 +228,9 @@ public:
 
     for ( auto& q_cur : mesh.quads() )
     {
-      if ( element_marker[i_quad] ) 
+      if ( element_marker[i_quad++] ) 
         continue;
 
-      ++i_quad;
-
       // Loop over all edges of the current quad
       for ( int i_vert = 0; i_vert < 4; ++i_vert )
       {
@@ -440,11 +438,9 @@ public:
 
     for ( auto& q_cur : mesh.quads() )
     {
-      if ( element_marker[i_quad] ) 
+      if ( element_marker[i_quad++] ) 
         continue;
 
-      ++i_quad;
-
       // Loop over all edges of the current quad
       for ( int i_vert = 0; i_vert < 4; ++i_vert )
       {
-- 
2.43.0


From 580fc8ca94061ad3a5042f1906493149d94edfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:25 +0000
Subject: [PATCH 14/19] fix: tri-to-quad merging and cleanup keep element
 colors and fixed vertices

---
 src/algorithm/MeshCleanup.h          | 18 ++++++++++++++----
 src/algorithm/ModificationStrategy.h |  3 ++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 87f5a2d..450a46d 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -256,6 +256,10 @@ public:
         if ( nbr_1 != nbr_2 )
           continue;
 
+        // Keep fixed vertices and do not merge across colors
+        if ( v2.is_fixed() || nbr_1->color() != q_cur->color() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
@@ -341,7 +345,8 @@ public:
       Vertex* o2 = opposing_vertices[i].second;
 
       // Create new quad 
-      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3 );
+      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3, 
+                                   quads_to_remove[i].first->color() );
       q_new.is_active(true);
     }
 
@@ -465,6 +470,10 @@ public:
         if ( nbr_1 != nbr_2 )
           continue;
 
+        // Keep fixed vertices and do not merge across colors
+        if ( v2.is_fixed() || nbr_1->color() != q_cur->color() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
@@ -531,7 +540,7 @@ public:
       Vertex& v3 = q->vertex( MOD(id_v+3, 4) );
 
       // Create new triangle 
-      Triangle& t_new = mesh.add_triangle( v1, v2, v3 );
+      Triangle& t_new = mesh.add_triangle( v1, v2, v3, q->color() );
       t_new.is_active(true);
     }
 
@@ -698,7 +707,8 @@ public:
       Facet* f_r = e_ptr->facet_r();
 
       if (  ( NullFacet::is_not_null(f_l) && f_l->n_vertices() == 3 )
-         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 ) )
+         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 )
+         && f_l->color() == f_r->color() )
         tri_edges.push_back( e_ptr.get() );
     }
 
@@ -757,7 +767,7 @@ public:
       mesh.remove_interior_edge( *e );
 
       // Create new quadrilateral element
-      Quad& q_new = mesh.add_quad( q_l, v1, q_r, v2 );
+      Quad& q_new = mesh.add_quad( q_l, v1, q_r, v2, f_l->color() );
       q_new.is_active( true );
 
       // Update internal edge connectivity to prevent bad memory 
diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index bf1208c..9006f79 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -111,7 +111,8 @@ private:
       Facet* f_r = e_ptr->facet_r();
 
       if (  ( NullFacet::is_not_null(f_l) && f_l->n_vertices() == 3 )
-         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 ) )
+         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 )
+         && f_l->color() == f_r->color() )
         tri_edges_.push_back( e_ptr.get() );
     }
 
-- 
2.43.0


From 1eaf32bd5bcbb3136c02ebdd79172b67c70ed0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 15/19] fix: merging drops algorithms that refer to the removed
 donor mesh

---
 src/algorithm/MeshGenerator.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 61c2737..bfb45db 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -131,6 +131,8 @@ public:
       if ( !mesh_builder_.remove_mesh_and_domain(donor) )
         return false;
 
+      release_algorithms( donor );
+
       meshes_.erase( it );
     }
 
@@ -248,6 +250,37 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Drop all algorithms that refer to a mesh which is about to be 
+  | removed - a new mesh may be created at the same address
+  ------------------------------------------------------------------*/
+  void release_algorithms(const Mesh& mesh)
+  {
+    if ( meshing_algorithm_ && &meshing_algorithm_->mesh() == &mesh )
+    {
+      meshing_algorithm_.reset();
+      meshing_algorithm_type_ = MeshingAlgorithm::None;
+    }
+
+    if ( smoothing_algorithm_ && &smoothing_algorithm_->mesh() == &mesh )
+    {
+      smoothing_algorithm_.reset();
+      smoothing_algorithm_type_ = SmoothingAlgorithm::None;
+    }
+
+    if ( refinement_algorithm_ && &refinement_algorithm_->mesh() == &mesh )
+    {
+      refinement_algorithm_.reset();
+      refinement_algorithm_type_ = RefinementAlgorithm::None;
+    }
+
+    if ( modification_algorithm_ && &modification_algorithm_->mesh() == &mesh )
+    {
+      modification_algorithm_.reset();
+      modification_algorithm_type_ = ModificationAlgorithm::None;
+    }
+  }
+
   /*------------------------------------------------------------------
   | Set a mesh generation algorithm for a specified mesh.
   | Returns false if the mesh is not connected to this MeshGenerator
-- 
2.43.0


From 2aeaa1630640cb5f41245722a24aaa0a118f9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 16/19] fix: virtual destructor for VTK data arrays deleted
 through their interface

---
 src/utils/VtkIO.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 9d3f5ce..210faa0 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -76,6 +76,8 @@ inline const char* VtkIOTypeTraits<double>::name = "Float64";
 class VtkIODataInterface
 {
 public:
+  virtual ~VtkIODataInterface() = default;
+
   virtual const std::string& name() const = 0;
   virtual size_t dim() const = 0;
   virtual const char* type() const = 0;
-- 
2.43.0


From bec47733421d8766710fa2c849ba30dcf954bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 17/19] fix: quad layer along a single edge no longer runs
 around the whole boundary

---
 src/algorithm/QuadLayering.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 743eaf5..2603fda 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -65,15 +65,14 @@ public:
     // Initialize edges
     Edge* e_cur = e_start_;
 
-    do 
+    while ( e_cur != e_end_ )
     {
       ASSERT( e_cur, "QuadLayerVertices::QuadLayerVertices(): "
         "Advancing front data structure seems to be corrupted.");
 
       add_quadlayer_edge( *e_cur );
       e_cur = e_cur->get_next_edge();
-
-    } while ( e_cur != e_end_ );
+    }
 
     // Add also the ending edge
     add_quadlayer_edge( *e_end_ );
-- 
2.43.0


From b86e502c5287b5b0160ec6eafa782b7dc549e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 18/19] fix: quad layers no longer move boundary corners and
 fixed vertices

---
 src/algorithm/QuadLayering.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 2603fda..e8f8ca1 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -218,6 +218,25 @@ private:
   } // QuadLayerVertices::adjust_projected_vertex_coordinates()
 
 
+  /*------------------------------------------------------------------
+  | Check if a vertex between the two edges e1 and e2 may be shifted
+  | along these edges. This is not the case for fixed vertices and for 
+  | corners of the boundary.
+  ------------------------------------------------------------------*/
+  bool is_movable(const Vertex& v, const Edge* e1, const Edge* e2) const
+  {
+    if ( v.is_fixed() )
+      return false;
+
+    if ( !v.on_boundary() )
+      return true;
+
+    return e1 && e2 
+        && orientation(e1->v1().xy(), v.xy(), e2->v2().xy()) 
+           == Orientation::CL;
+
+  } // QuadLayerVertices::is_movable()
+
   /*------------------------------------------------------------------
   | To prevent degenerate triangles, we check if the projected 
   | vertex of the first quad layer element is located too close 
@@ -283,6 +302,13 @@ private:
     // ----------
     if ( dist_sqr < h * h )
     {
+      // Corners of the boundary and fixed vertices must stay in place
+      if ( !is_movable(v_prev, e_prev->get_prev_edge(), e_prev) )
+      {
+        v1_proj_xy_[0] = v_prev.xy();
+        return;
+      }
+
       // Shift v_prev along the edge e_prev, such that it has the same
       // height as v1_proj_xy, then set v1_proj_xy to this coordinate
       Vec2d delta_1 = v_prev.xy() - v1_base_[0]->xy(); 
@@ -408,6 +434,13 @@ private:
     // ----------
     if ( dist_sqr < h * h )
     {
+      // Corners of the boundary and fixed vertices must stay in place
+      if ( !is_movable(v_next, e_next, e_next->get_next_edge()) )
+      {
+        v2_proj_xy_.back() = v_next.xy();
+        return;
+      }
+
       // Shift v_next along the edge e_prev, such that it has the same
       // height as v2_proj_xy, then set v2_proj_xy to this coordinate
       Vec2d delta_1 = v_next.xy() - v_end.xy(); 
-- 
2.43.0


From 1bbd8d16d52b42371c764dc680997d84f9210e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 19/19] fix: quad layers no longer split boundary edges shared
 with a neighbor mesh

---
 src/algorithm/QuadLayering.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index e8f8ca1..e0915a0 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -320,15 +320,17 @@ private:
       return;
     }
 
+    // Get a pointer to the previous edge in the mesh data structure,
+    // since it might be removed later on. Edges that are shared with a 
+    // neighboring mesh must not be split.
+    Edge* e_bdry_rem 
+      = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
+    const bool has_twin = e_bdry_rem && e_bdry_rem->twin_edge();
+
     // Scenario 2
     // ----------
-    if ( h < e_prev->length() )
+    if ( h < e_prev->length() && !has_twin )
     {
-      // Get a pointer to the previous edge in the mesh data structure,
-      // since it will be removed later on
-      Edge* e_bdry_rem 
-        = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
-
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_prev.xy() - v_start.xy();
       const Vec2d d2 = v1_proj_xy_[0] - v_start.xy();
@@ -452,14 +454,16 @@ private:
       return;
     }
 
+    // Get a pointer to the next edge in the mesh data structure,
+    // since it might be removed later on. Edges that are shared with a 
+    // neighboring mesh must not be split.
+    Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
+    const bool has_twin = e_bdry_rem && e_bdry_rem->twin_edge();
+
     // Scenario 2
     // ----------
-    if ( h < e_next->length() )
+    if ( h < e_next->length() && !has_twin )
     {
-      // Get a pointer to the next edge in the mesh data structure,
-      // since it will be removed later on
-      Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
-
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_next.xy() - v_end.xy();
       const Vec2d d2 = v2_proj_xy_.back() - v_end.xy();
-- 
2.43.0

