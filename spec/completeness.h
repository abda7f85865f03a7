// Specification programs: what counts as a valid domain and as a complete mesh.
namespace vp_spec { namespace completeness {
using namespace TQMesh; using namespace CppUtils;

inline bool domain_valid(const Domain& d)
{
  if (d.size() == 0) return false;
  bool outer = false;
  for (const auto& b : d.boundaries_) if (b->is_exterior()) { outer = true; break; }
  if (!outer) return false;
  for (const auto& b : d.boundaries_)
  {
    if (b->size() == 0) return false;
    Edge& e = b->edges()[0];
    if (!b->is_traversable(e, e)) return false;
  }
  for (const auto& b : d.boundaries_)
  {
    if (b->intersects_self()) return false;
    for (const auto& o : d.boundaries_)
      if (o != b && b->intersects_edgelist(*o)) return false;
  }
  return true;
}

// each edge is an edge of some element at both of its ends
inline bool used(const Vertex& v, const Vertex& a, const Vertex& b)
{ for (auto f : v.facets()) if (f->get_edge_index(a, b) >= 0) return true; return false; }
inline bool mesh_valid(Mesh& m)
{
  for (const auto& e : m.intr_edges_) if (!(used(e->v1(), e->v1(), e->v2()) && used(e->v2(), e->v1(), e->v2()))) return false;
  for (const auto& e : m.bdry_edges_) if (!(used(e->v1(), e->v1(), e->v2()) && used(e->v2(), e->v1(), e->v2()))) return false;
  return true;
}

inline bool law_threshold(Mesh& m, const Domain& d) { MeshChecker c(m, d); return c.area_threshold_ == 1.0E-10; }

inline bool complete(const MeshChecker& c, bool refresh)
{
  if (refresh) { MeshCleanup::assign_mesh_indices(*c.mesh_); MeshCleanup::setup_facet_connectivity(*c.mesh_); }
  const bool no_front = c.mesh_->get_front_edges().size() == 0;
  const bool connected = EntityChecks::check_mesh_validity(*c.mesh_);
  const auto x = c.domain_->extent();
  const double gap = ABS(c.mesh_->area() - c.domain_->area());
  const bool covered = gap / ((x.first[1] - x.first[0]) * (x.second[1] - x.second[0])) < c.area_threshold_;
  return no_front && connected && covered;
}

}}
