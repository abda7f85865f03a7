// Specification programs: preparing, keeping and merging meshes.
namespace vp_spec { namespace build {
using namespace TQMesh; using namespace CppUtils;

inline Domain* get_domain(MeshBuilder& b, Mesh& m)
{ for (std::size_t i = 0; i < b.meshes_.size(); ++i) if (b.meshes_[i] == &m) return b.domains_[i]; return nullptr; }

inline void add_pair(MeshBuilder& b, Mesh& m, Domain& d) { b.meshes_.push_back(&m); b.domains_.push_back(&d); }

// mesh and domain of one position leave together
inline bool remove_pair(MeshBuilder& b, Mesh& m)
{
  auto it = std::find(b.meshes_.begin(), b.meshes_.end(), &m);
  if (it == b.meshes_.end()) return false;
  const size_t i = std::distance(b.meshes_.begin(), it);
  b.domains_.erase(b.domains_.begin() + i);
  b.meshes_.erase(b.meshes_.begin() + i);
  return true;
}

// only an empty mesh of a valid domain is prepared; boundary edges carry colour, properties and the link to their partner
inline bool prepare(MeshBuilder& b, Mesh& mesh, Domain& domain)
{
  if (!mesh.is_empty() || !EntityChecks::check_domain_validity(domain)) return false;
  FrontInitData data { domain, b.meshes_ };
  Front front {};
  front.init_front(domain, data, mesh.vertices());
  for (const auto& v : domain.fixed_verts_)
    if (v->is_fixed() && v->edges().size() == 0)
    {
      Vertex& w = mesh.add_vertex(v->xy());
      w.add_property(VertexProperty::is_fixed);
      w.add_property(VertexProperty::on_front);
    }
  for (auto& e : front)
    if (!e->is_fixed())
    {
      Edge& n = mesh.bdry_edges_.add_edge(e->v1(), e->v2(), e->color());
      n.set_property(e->properties());
      Edge* twin = e->twin_edge();
      if (twin) { twin->twin_edge(&n); n.twin_edge(twin); e->twin_edge(nullptr); }
    }
  return true;
}

// a mesh can be merged once and only with a mesh it shares boundary edges with
inline bool merge(MeshMerger& m)
{
  if (m.merged_) return false;
  MeshCleanup::setup_facet_connectivity(*m.receiver_);
  MeshCleanup::setup_facet_connectivity(*m.donor_);
  MeshCleanup::assign_mesh_indices(*m.receiver_);
  MeshCleanup::assign_mesh_indices(*m.donor_);
  if (!m.collect_interface_boundary_vertices()) return false;
  m.copy_donor_vertices();
  m.copy_donor_quads();
  m.copy_donor_triangles();
  m.copy_donor_interior_edges();
  m.copy_donor_boundary_edges();
  m.convert_boundary_interface_edges();
  for (const auto& e : m.receiver_->bdry_edges_)
  { e->v1().add_property(VertexProperty::on_boundary); e->v2().add_property(VertexProperty::on_boundary); }
  m.merged_ = true;
  return true;
}

inline bool shared(MeshMerger& m)
{
  std::size_t n = 0;
  for (const auto& e : m.receiver_->bdry_edges_)
  {
    Edge* t = e->twin_edge();
    if (!t || t->facet_l()->mesh() != m.donor_) continue;
    // partners run against each other
    m.new_vertices_[t->v2().index()] = &e->v1();
    m.new_vertices_[t->v1().index()] = &e->v2();
    m.new_vertices_[t->v1().index()]->remove_property(VertexProperty::on_boundary);
    m.new_vertices_[t->v2().index()]->remove_property(VertexProperty::on_boundary);
    m.new_vertices_[t->v1().index()]->add_property(VertexProperty::is_fixed);
    m.new_vertices_[t->v2().index()]->add_property(VertexProperty::is_fixed);
    n += 1;
  }
  return n > 0;
}

inline void copy_vertices(MeshMerger& m)
{
  for (const auto& v : m.donor_->verts_)
    if (!m.new_vertices_[v->index()])
    {
      Vertex& w = m.receiver_->add_vertex(v->xy());
      w.add_property(v->properties());
      m.new_vertices_[v->index()] = &w;
    }
}

inline void copy_quads(MeshMerger& m)
{
  for (const auto& q : m.donor_->quads_)
    m.receiver_->add_quad(*m.new_vertices_[q->v1().index()], *m.new_vertices_[q->v2().index()], *m.new_vertices_[q->v3().index()], *m.new_vertices_[q->v4().index()], q->color());
}

inline void copy_triangles(MeshMerger& m)
{
  for (const auto& t : m.donor_->tris_)
    m.receiver_->add_triangle(*m.new_vertices_[t->v1().index()], *m.new_vertices_[t->v2().index()], *m.new_vertices_[t->v3().index()], t->color());
}

inline void copy_interior(MeshMerger& m)
{
  for (const auto& e : m.donor_->intr_edges_)
  {
    Edge& n = m.receiver_->intr_edges_.add_edge(*m.new_vertices_[e->v1().index()], *m.new_vertices_[e->v2().index()]);
    n.set_property(e->properties());
  }
}

// boundary edges towards the receiver vanish, all others keep colour, properties and partner
inline void copy_boundary(MeshMerger& m)
{
  for (const auto& e : m.donor_->bdry_edges_)
  {
    Edge* t = e->twin_edge();
    if (t && t->facet_l() && t->facet_l()->mesh() == m.receiver_) continue;
    Edge& n = m.receiver_->bdry_edges_.add_edge(*m.new_vertices_[e->v1().index()], *m.new_vertices_[e->v2().index()], e->color());
    n.set_property(e->properties());
    if (t) { t->twin_edge(&n); n.twin_edge(t); }
  }
}

inline void dissolve(MeshMerger& m)
{
  std::vector<Edge*> old;
  std::vector<std::pair<Vertex*, Vertex*>> fresh;
  for (const auto& e : m.receiver_->bdry_edges_)
  {
    Edge* t = e->twin_edge();
    if (!t || t->facet_l()->mesh() != m.donor_) continue;
    Vertex *a = m.new_vertices_[t->v1().index()], *b = m.new_vertices_[t->v2().index()];
    fresh.push_back({b, a});
    old.push_back(e.get());
  }
  for (Edge* e : old) m.receiver_->remove_boundary_edge(*e);
  for (auto v : fresh) m.receiver_->intr_edges_.add_edge(*v.first, *v.second);
  m.receiver_->clear_waste();
}

// no algorithm object keeps referring to a removed mesh (a new one may be created at its address)
inline void release(MeshGenerator& g, Mesh& m)
{
  if (g.meshing_algorithm_ && &g.meshing_algorithm_->mesh() == &m) { g.meshing_algorithm_.reset(); g.meshing_algorithm_type_ = MeshingAlgorithm::None; }
  if (g.smoothing_algorithm_ && &g.smoothing_algorithm_->mesh() == &m) { g.smoothing_algorithm_.reset(); g.smoothing_algorithm_type_ = SmoothingAlgorithm::None; }
  if (g.refinement_algorithm_ && &g.refinement_algorithm_->mesh() == &m) { g.refinement_algorithm_.reset(); g.refinement_algorithm_type_ = RefinementAlgorithm::None; }
  if (g.modification_algorithm_ && &g.modification_algorithm_->mesh() == &m) { g.modification_algorithm_.reset(); g.modification_algorithm_type_ = ModificationAlgorithm::None; }
}
inline bool merge_meshes(MeshGenerator& g, Mesh& receiver, Mesh& donor)
{
  if (!g.mesh_builder_.get_domain(receiver) || !g.mesh_builder_.get_domain(donor)) return false;
  MeshMerger merger(receiver, donor);
  if (!merger.merge()) return false;
  auto it = std::find_if(g.meshes_.begin(), g.meshes_.end(), [&donor](const std::unique_ptr<Mesh>& p) { return p.get() == &donor; });
  if (it == g.meshes_.end()) return false;
  if (!g.mesh_builder_.remove_mesh_and_domain(donor)) return false;
  release(g, donor);
  g.meshes_.erase(it);
  return true;
}

inline Mesh& new_mesh(MeshGenerator& g, Domain& d, int id, int color)
{
  g.meshes_.push_back(g.mesh_builder_.create_empty_mesh_ptr(d, id, color));
  Mesh& m = *g.meshes_.back();
  g.mesh_builder_.prepare_mesh(m, d);
  g.mesh_builder_.add_mesh_and_domain(m, d);
  return m;
}

inline bool write_mesh(MeshGenerator& g, Mesh& m, const std::string& f, MeshExportType t)
{
  Domain* d = g.mesh_builder_.get_domain(m);
  if (!d) return false;
  MeshWriter w { m, *d };
  return w.write(f, t);
}

inline Mesh& mesh(MeshGenerator& g, std::size_t i) { if (i >= g.meshes_.size()) TERMINATE(""); return *g.meshes_[i]; }

inline bool is_valid(MeshGenerator& g, Mesh& m) { return g.mesh_builder_.get_domain(m) != nullptr; }

// an algorithm always works on the requested mesh; unknown meshes are refused
inline bool set_meshing(MeshGenerator& g, Mesh& m, MeshingAlgorithm a)
{
  Domain* d = g.mesh_builder_.get_domain(m);
  if (!d) return false;
  if (a == MeshingAlgorithm::Triangulation) { g.meshing_algorithm_ = std::make_unique<Triangulation>(m, *d); g.meshing_algorithm_type_ = a; }
  else if (a == MeshingAlgorithm::QuadLayer) { g.meshing_algorithm_ = std::make_unique<QuadLayering>(m, *d); g.meshing_algorithm_type_ = a; }
  else g.meshing_algorithm_type_ = MeshingAlgorithm::None;
  return true;
}

inline bool set_smoothing(MeshGenerator& g, Mesh& m, SmoothingAlgorithm a)
{
  Domain* d = g.mesh_builder_.get_domain(m);
  if (!d) return false;
  if (a == SmoothingAlgorithm::Laplace) { g.smoothing_algorithm_ = std::make_unique<LaplaceSmoothing>(m, *d); g.smoothing_algorithm_type_ = a; }
  else if (a == SmoothingAlgorithm::Torsion) { g.smoothing_algorithm_ = std::make_unique<TorsionSmoothing>(m, *d); g.smoothing_algorithm_type_ = a; }
  else if (a == SmoothingAlgorithm::Mixed) { g.smoothing_algorithm_ = std::make_unique<MixedSmoothing>(m, *d); g.smoothing_algorithm_type_ = a; }
  else g.smoothing_algorithm_type_ = SmoothingAlgorithm::None;
  return true;
}

inline bool set_refinement(MeshGenerator& g, Mesh& m, RefinementAlgorithm a)
{
  Domain* d = g.mesh_builder_.get_domain(m);
  if (!d) return false;
  if (a == RefinementAlgorithm::Quad) { g.refinement_algorithm_ = std::make_unique<QuadRefinement>(m, *d); g.refinement_algorithm_type_ = a; }
  else g.refinement_algorithm_type_ = RefinementAlgorithm::None;
  return true;
}

inline bool set_modification(MeshGenerator& g, Mesh& m, ModificationAlgorithm a)
{
  Domain* d = g.mesh_builder_.get_domain(m);
  if (!d) return false;
  if (a == ModificationAlgorithm::Tri2Quad) { g.modification_algorithm_ = std::make_unique<Tri2QuadModification>(m, *d); g.modification_algorithm_type_ = a; }
  else g.modification_algorithm_type_ = ModificationAlgorithm::None;
  return true;
}

inline QuadLayering& quad_layer_generation(MeshGenerator& g, Mesh& m)
{
  const bool ready = g.meshing_algorithm_type_ == MeshingAlgorithm::QuadLayer && &g.meshing_algorithm_->mesh() == &m;
  if (!ready && !g.set_algorithm(m, MeshingAlgorithm::QuadLayer)) TERMINATE("");
  return *dynamic_cast<QuadLayering*>(g.meshing_algorithm_.get());
}

inline Triangulation& triangulation(MeshGenerator& g, Mesh& m)
{
  const bool ready = g.meshing_algorithm_type_ == MeshingAlgorithm::Triangulation && &g.meshing_algorithm_->mesh() == &m;
  if (!ready && !g.set_algorithm(m, MeshingAlgorithm::Triangulation)) TERMINATE("");
  return *dynamic_cast<Triangulation*>(g.meshing_algorithm_.get());
}

inline LaplaceSmoothing& laplace_smoothing(MeshGenerator& g, Mesh& m)
{
  const bool ready = g.smoothing_algorithm_type_ == SmoothingAlgorithm::Laplace && &g.smoothing_algorithm_->mesh() == &m;
  if (!ready && !g.set_algorithm(m, SmoothingAlgorithm::Laplace)) TERMINATE("");
  return *dynamic_cast<LaplaceSmoothing*>(g.smoothing_algorithm_.get());
}

inline TorsionSmoothing& torsion_smoothing(MeshGenerator& g, Mesh& m)
{
  const bool ready = g.smoothing_algorithm_type_ == SmoothingAlgorithm::Torsion && &g.smoothing_algorithm_->mesh() == &m;
  if (!ready && !g.set_algorithm(m, SmoothingAlgorithm::Torsion)) TERMINATE("");
  return *dynamic_cast<TorsionSmoothing*>(g.smoothing_algorithm_.get());
}

inline MixedSmoothing& mixed_smoothing(MeshGenerator& g, Mesh& m)
{
  const bool ready = g.smoothing_algorithm_type_ == SmoothingAlgorithm::Mixed && &g.smoothing_algorithm_->mesh() == &m;
  if (!ready && !g.set_algorithm(m, SmoothingAlgorithm::Mixed)) TERMINATE("");
  return *dynamic_cast<MixedSmoothing*>(g.smoothing_algorithm_.get());
}

inline QuadRefinement& quad_refinement(MeshGenerator& g, Mesh& m)
{
  const bool ready = g.refinement_algorithm_type_ == RefinementAlgorithm::Quad && &g.refinement_algorithm_->mesh() == &m;
  if (!ready && !g.set_algorithm(m, RefinementAlgorithm::Quad)) TERMINATE("");
  return *dynamic_cast<QuadRefinement*>(g.refinement_algorithm_.get());
}

inline Tri2QuadModification& tri2quad_modification(MeshGenerator& g, Mesh& m)
{
  const bool ready = g.modification_algorithm_type_ == ModificationAlgorithm::Tri2Quad && &g.modification_algorithm_->mesh() == &m;
  if (!ready && !g.set_algorithm(m, ModificationAlgorithm::Tri2Quad)) TERMINATE("");
  return *dynamic_cast<Tri2QuadModification*>(g.modification_algorithm_.get());
}

}}
