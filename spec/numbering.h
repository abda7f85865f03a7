// Specification programs: numbering and connectivity used by every export.
namespace vp_spec { namespace numbering {
using namespace TQMesh; using namespace CppUtils;

// consecutive numbers from 0: vertices on their own, quads first and then triangles
inline void assign_mesh_indices(Mesh& mesh)
{
  int n = 0;
  for (auto& v : mesh.vertices()) { v->index(n); n = n + 1; }
  int k = 0;
  for (auto& q : mesh.quads())     { q->index(k); k = k + 1; }
  for (auto& t : mesh.triangles()) { t->index(k); k = k + 1; }
}


inline void assign_size_function(Mesh& mesh, const Domain& domain)
{
  for (auto& v : mesh.vertices()) v->mesh_size(domain.size_function(v->xy()));
}


inline void put(Edge& e, const Vertex& a, const Vertex& b, Facet* f)
{
  if (is_left(a.xy(), b.xy(), f->xy())) e.facet_l(f); else e.facet_r(f);
}


// interior edge: the (at most two) facets at its first vertex that own the edge are
// each other's neighbours across it, each stored on the side it lies on;
// boundary edge: the facet that owns it, if on its left, is its left facet
inline void setup_facet_connectivity(Mesh& mesh)
{
  Facet* none = &NullFacet::get_instance();
  for (auto& e : mesh.interior_edges())
  {
    Facet* f1 = none; Facet* f2 = none; int i1 = -1, i2 = -1;
    const Vertex& a = e->v1(); const Vertex& b = e->v2();
    for (auto f : a.facets())
    {
      int i = f->get_edge_index(a, b);
      if (i >= 0)
      {
        if (i1 < 0)      { i1 = i; f1 = f; }
        else if (i2 < 0) { i2 = i; f2 = f; break; }
      }
    }
    if (f1 != none) { f1->neighbor(i1, f2); put(*e, a, b, f1); }
    if (f2 != none) { f2->neighbor(i2, f1); put(*e, a, b, f2); }
  }
  for (auto& e : mesh.boundary_edges())
  {
    Facet* g = none;
    const Vertex& a = e->v1(); const Vertex& b = e->v2();
    for (auto f : a.facets()) if (f->get_edge_index(a, b) >= 0) { g = f; break; }
    if (g != none && is_left(a.xy(), b.xy(), g->xy())) e->facet_l(g);
  }
}


// every export works on freshly assigned sizes, numbers and connectivity
inline bool write(MeshWriter& w, const std::string& file, MeshExportType t)
{
  MeshCleanup::assign_size_function_to_vertices(*w.mesh_, *w.domain_);
  MeshCleanup::assign_mesh_indices(*w.mesh_);
  MeshCleanup::setup_facet_connectivity(*w.mesh_);
  if (t == MeshExportType::COUT) { std::cout << *w.mesh_; return true; }
  if (t == MeshExportType::TXT) return w.write_to_txt(file);
  if (t == MeshExportType::VTU) return w.write_to_vtu(file);
  return false;
}

}}
