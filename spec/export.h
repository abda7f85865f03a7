// Specification programs: text and VTU export.
namespace vp_spec { namespace exports {
using namespace TQMesh; using namespace CppUtils;
inline int num(const Facet* f) { return f ? f->index() : -1; }

inline std::ostream& text(std::ostream& os, const Mesh& m)
{
  auto intr = m.get_valid_interior_edges(); auto bdry = m.get_valid_boundary_edges(); auto face = m.get_interface_edges(); auto front = m.get_front_edges();
  os << std::fixed;
  os << "MESH " << m.id() << "\n" << "VERTICES " << m.vertices().size() << "\n";
  for (auto& v : m.vertices()) os << std::setprecision(5) << v->xy().x << "," << v->xy().y << "\n";
  os << "INTERIOREDGES " << intr.size() << "\n";
  for (auto e : intr) os << e->v1().index() << "," << e->v2().index() << "," << e->facet_l()->index() << "," << e->facet_r()->index() << "\n";
  os << "BOUNDARYEDGES " << bdry.size() << "\n";
  for (auto e : bdry) os << e->v1().index() << "," << e->v2().index() << "," << e->facet_l()->index() << "," << e->color() << "\n";
  os << "INTERFACEEDGES " << face.size() << "\n";
  for (auto e : face) os << e->v1().index() << "," << e->v2().index() << "," << e->facet_l()->index() << "," << e->twin_edge()->facet_l()->index() << "," << e->twin_edge()->facet_l()->color() << "\n";
  os << "FRONT " << front.size() << "\n";
  for (auto e : front) os << e->v1().index() << "," << e->v2().index() << "," << -1 << "\n";
  os << "QUADS " << m.quads().size() << "\n";
  for (auto& q : m.quads()) os << q->v1().index() << "," << q->v2().index() << "," << q->v3().index() << "," << q->v4().index() << "," << q->color() << "\n";
  os << "TRIANGLES " << m.triangles().size() << "\n";
  for (auto& q : m.triangles()) os << q->v1().index() << "," << q->v2().index() << "," << q->v3().index() << "," << q->color() << "\n";
  os << "QUADNEIGHBORS " << m.quads().size() << "\n";
  for (auto& q : m.quads()) os << num(q->nbr1()) << "," << num(q->nbr2()) << "," << num(q->nbr3()) << "," << num(q->nbr4()) << "\n";
  os << "TRIANGLENEIGHBORS " << m.triangles().size() << "\n";
  for (auto& q : m.triangles()) os << num(q->nbr1()) << "," << num(q->nbr2()) << "," << num(q->nbr3()) << "\n";
  os << "SIZEFUNCTION " << m.vertices().size() << "\n";
  for (auto& v : m.vertices()) os << std::setprecision(5) << v->mesh_size() << "\n";
  return os;
}

inline bool txt(MeshWriter& w, const std::string& file)
{
  std::string path = file;
  if (path.substr(path.find_last_of(".") + 1) != "txt") path += ".txt";
  std::ofstream out; out.open(path); out << *w.mesh_; out.close();
  return !out.fail();
}

// per vertex: x y 0, size, layer flag, fixed flag; per element (quads, then triangles): corners, running corner count, type, colour, length, angle, quality
inline bool vtu(MeshWriter& w, const std::string& file)
{
  std::string path = file;
  if (path.substr(path.find_last_of(".") + 1) != "vtu") path += ".vtu";
  std::vector<double> xyz, size; std::vector<int> layer, fix;
  for (auto& v : w.mesh_->vertices())
  {
    size.push_back(w.domain_->size_function(v->xy())); layer.push_back(v->in_quad_layer() ? 1 : 0); fix.push_back(v->is_fixed() ? 1 : 0);
    xyz.push_back(v->xy().x); xyz.push_back(v->xy().y); xyz.push_back(0);
  }
  std::vector<size_t> corner, end, kind; std::vector<int> color; std::vector<double> len, ang, qual;
  size_t n = 0;
  for (auto& q : w.mesh_->quads())
  {
    kind.push_back(9); n += 4; end.push_back(n); color.push_back(q->color());
    len.push_back(q->max_edge_length()); ang.push_back(q->max_angle() / M_PI * 180.); qual.push_back(q->quality(w.domain_->size_function(q->xy())));
    corner.push_back(q->v1().index()); corner.push_back(q->v2().index()); corner.push_back(q->v3().index()); corner.push_back(q->v4().index());
  }
  for (auto& q : w.mesh_->triangles())
  {
    kind.push_back(5); n += 3; end.push_back(n); color.push_back(q->color());
    len.push_back(q->max_edge_length()); ang.push_back(q->max_angle() / M_PI * 180.); qual.push_back(q->quality(w.domain_->size_function(q->xy())));
    corner.push_back(q->v1().index()); corner.push_back(q->v2().index()); corner.push_back(q->v3().index());
  }
  VtuWriter f { xyz, corner, end, kind };
  f.add_point_data(size, "size_function", 1); f.add_point_data(layer, "in_quad_layer", 1); f.add_point_data(fix, "fixed_vertices", 1);
  f.add_cell_data(color, "element_color", 1); f.add_cell_data(len, "edge_length", 1); f.add_cell_data(ang, "max_angle", 1); f.add_cell_data(qual, "cell_quality", 1);
  return f.write(path);
}

inline void gap(std::ofstream& o, int n) { if (n == 2) o << "  "; else if (n == 4) o << "    "; else if (n == 6) o << "      "; else if (n == 8) o << "        "; else if (n == 10) o << "          "; }

template <class T> void values(VtuWriter& w, std::ofstream& o, const std::vector<T>& d)
{
  gap(o, 10);
  for (size_t j = 0; j < d.size(); j++)
  {
    if (j > 0 && j % w.n_max_row_ == 0) { o << "\n"; gap(o, 10); }
    o << d[j] << " ";
  }
  o << "\n";
}

inline bool vtu_file(VtuWriter& w, const std::string& file)
{
  std::ofstream o; o.open(file);
  o << "<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">\n  <UnstructuredGrid>\n    <Piece NumberOfPoints=\"" << w.points_.size() / 3
    << "\" NumberOfCells=\"" << w.offsets_.size() << "\">\n";
  w.write_point_data(o); w.write_cell_data(o); w.write_points(o); w.write_cells(o);
  o << "    </Piece>\n  </UnstructuredGrid>\n</VTKFile>\n";
  o.close();
  return !o.fail();
}

inline void arrays(std::ofstream& o, std::vector<std::unique_ptr<VtkIODataInterface>>& l)
{
  for (auto& d : l)
  {
    o << "        <DataArray type=\"" << d->type() << "\" Name=\"" << d->name() << "\" NumberOfComponents=\"" << d->dim() << "\" Format=\"ascii\">\n";
    d->write_data(o, 10);
    o << "        </DataArray>\n";
  }
}

inline void point_data(VtuWriter& w, std::ofstream& o)
{ if (w.point_data_.size() == 0) return; o << "      <PointData Scalars=\"scalars\">\n"; arrays(o, w.point_data_); o << "      </PointData>\n"; }

inline void cell_data(VtuWriter& w, std::ofstream& o)
{ if (w.cell_data_.size() == 0) return; o << "      <CellData Scalars=\"scalars\">\n"; arrays(o, w.cell_data_); o << "      </CellData>\n"; }

inline void points(VtuWriter& w, std::ofstream& o)
{
  o << "      <Points>\n        <DataArray type=\"Float32\" NumberOfComponents=\"3\" Format=\"ascii\">\n";
  o << std::setprecision(5) << std::fixed;
  values(w, o, w.points_);
  o << "        </DataArray>\n      </Points>\n";
}

inline void cells(VtuWriter& w, std::ofstream& o)
{
  o << "      <Cells>\n        <DataArray type=\"Int32\" Name=\"connectivity\" Format=\"ascii\">\n";
  values(w, o, w.connectivity_);
  o << "        </DataArray>\n        <DataArray type=\"Int32\" Name=\"offsets\" Format=\"ascii\">\n";
  values(w, o, w.offsets_);
  o << "        </DataArray>\n        <DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
  gap(o, 10);
  for (size_t j = 0; j < w.offsets_.size(); j++)
  {
    if (j > 0 && j % w.n_max_row_ == 0) { o << "\n"; gap(o, 10); }
    o << w.types_[j] << " ";
  }
  o << "\n        </DataArray>\n      </Cells>\n";
}

inline void data_i(VtkIOData<int>& d, std::ofstream& o, size_t row)
{
  gap(o, 10);
  for (size_t j = 0; j < d.data_.size(); j++) { if (j > 0 && j % row == 0) { o << "\n"; gap(o, 10); } o << d.data_[j] << " "; }
  o << "\n";
}

inline void data_d(VtkIOData<double>& d, std::ofstream& o, size_t row)
{
  gap(o, 10);
  for (size_t j = 0; j < d.data_.size(); j++) { if (j > 0 && j % row == 0) { o << "\n"; gap(o, 10); } o << d.data_[j] << " "; }
  o << "\n";
}

inline bool law_vtu_parts(std::vector<double>& p, std::vector<size_t>& a, std::vector<size_t>& b, std::vector<size_t>& c)
{ VtuWriter w { p, a, b, c }; return w.n_max_row_ > 0 && w.points_.size() == p.size() && w.connectivity_.size() == a.size() && w.offsets_.size() == b.size() && w.types_.size() == c.size() && w.cell_data_.size() == 0 && w.point_data_.size() == 0; }

inline size_t use_points(std::vector<double>& p, std::vector<size_t>& a, std::vector<size_t>& b, std::vector<size_t>& c, size_t i) { VtuWriter w { p, a, b, c }; return w.connectivity_[i] + 10 * w.offsets_[i] + 100 * w.types_[i]; }

inline size_t means_points(std::vector<double>& p, std::vector<size_t>& a, std::vector<size_t>& b, std::vector<size_t>& c, size_t i) { return a[i] + 10 * b[i] + 100 * c[i]; }

inline const char* use_int_type(VtkIOData<int>& d) { return d.type(); }

inline const char* means_int_type(VtkIOData<int>& d) { return "Int32"; }

inline const char* use_real_type(VtkIOData<double>& d) { return d.type(); }

inline const char* means_real_type(VtkIOData<double>& d) { return "Float64"; }

inline void to_points(VtuWriter& w, const std::vector<int>& d, const std::string& n, size_t k) { w.point_data_.emplace_back(new VtkIOData<int> { d, n, k }); }

inline void to_points(VtuWriter& w, const std::vector<double>& d, const std::string& n, size_t k) { w.point_data_.emplace_back(new VtkIOData<double> { d, n, k }); }

inline void to_cells(VtuWriter& w, const std::vector<int>& d, const std::string& n, size_t k) { w.cell_data_.emplace_back(new VtkIOData<int> { d, n, k }); }

inline void to_cells(VtuWriter& w, const std::vector<double>& d, const std::string& n, size_t k) { w.cell_data_.emplace_back(new VtkIOData<double> { d, n, k }); }

inline size_t use_data(const std::vector<int>& d, const std::string& n, size_t k, size_t i) { VtkIOData<int> x { d, n, k }; return x.data_[i] + 10 * x.dim(); }

inline size_t means_data(const std::vector<int>& d, const std::string& n, size_t k, size_t i) { return d[i] + 10 * k; }

inline std::string use_name(const std::vector<int>& d, const std::string& n, size_t k) { VtkIOData<int> x { d, n, k }; return x.name(); }

inline std::string means_name(const std::vector<int>& d, const std::string& n, size_t k) { return n; }

}}
