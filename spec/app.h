// Specification programs: the command line application.
namespace vp_spec { namespace app {
using namespace TQMesh; using namespace CppUtils;

// all parts of the input block are read before the mesh is generated
inline bool construct(MeshConstruction& c, int id, ParaReader& r)
{
  c.mesh_id_ = id;
  c.query_mandatory_parameters(r);
  c.init_mesh_vertices(r);
  c.init_fixed_vertices(r);
  c.init_mesh_domain(r);
  c.init_domain_vertices(r);
  c.init_exterior_boundary(r);
  c.init_interior_boundaries(r);
  c.init_fixed_edges(r);
  c.init_quad_layers(r);
  c.init_element_color(r);
  c.init_meshing_algorithm(r);
  c.init_refinement_parameters(r);
  c.init_smoothing_parameters(r);
  return c.generate_mesh();
}

inline void smoothing(MeshConstruction& c, ParaReader& r)
{
  c.smoothing_iterations_ = 2;
  c.smooth_quad_layers_ = false;
  if (r.query<size_t>("smoothing_iterations")) c.smoothing_iterations_ = r.get_value<size_t>("smoothing_iterations");
  if (r.query<bool>("smooth_quad_layers")) c.smooth_quad_layers_ = r.get_value<bool>("smooth_quad_layers");
}

inline void refinement(MeshConstruction& c, ParaReader& r)
{ c.quad_refinements_ = 0; if (r.query<size_t>("quad_refinements")) c.quad_refinements_ = r.get_value<size_t>("quad_refinements"); }

inline void algorithm(MeshConstruction& c, ParaReader& r)
{ c.algorithm_ = "Triangulation"; if (r.query<std::string>("algorithm")) c.algorithm_ = r.get_value<std::string>("algorithm"); }

inline void color(MeshConstruction& c, ParaReader& r)
{ c.element_color_ = 0; if (r.query<int>("elem_color")) c.element_color_ = r.get_value<int>("elem_color"); }

inline void layers(MeshConstruction& c, ParaReader& r)
{
  c.quad_layer_vertices_.clear(); c.quad_layer_numbers_.clear(); c.quad_layer_heights_.clear(); c.quad_layer_growth_.clear();
  while (r.query<double>("quad_layers"))
  {
    auto p = r.get_parameter<double>("quad_layers");
    c.quad_layer_vertices_.push_back({Vec2d{p.get_value(0), p.get_value(1)}, Vec2d{p.get_value(2), p.get_value(3)}});
    c.quad_layer_numbers_.push_back((int)p.get_value(4));
    c.quad_layer_heights_.push_back(p.get_value(5));
    c.quad_layer_growth_.push_back(p.get_value(6));
  }
}

inline void fixed_vertices(MeshConstruction& c, ParaReader& r)
{
  if (!r.query<double>("fixed_vertices", true, -1.0)) return;
  auto p = r.get_parameter<double>("fixed_vertices");
  for (size_t i = 0; i < p.rows(); ++i)
  {
    c.vertex_pos_.push_back(Vec2d{p.get_value(0, i), p.get_value(1, i)});
    c.vertex_props_.push_back(Vec2d{p.get_value(2, i), p.get_value(3, i)});
    c.vertex_fixed_.push_back(true);
  }
}

inline void vertices(MeshConstruction& c, ParaReader& r)
{
  c.vertex_pos_.clear(); c.vertex_props_.clear(); c.vertex_fixed_.clear(); c.domain_extent_ = 0.0;
  if (!r.query<double>("vertices", true, -1.0)) { c.domain_extent_ = TQ_MAX; return; }
  auto p = r.get_parameter<double>("vertices");
  double most = 0.0;
  for (size_t i = 0; i < p.rows(); ++i)
  {
    const double x = p.get_value(0, i), y = p.get_value(1, i);
    c.vertex_pos_.push_back(Vec2d{x, y});
    c.vertex_props_.push_back(Vec2d{p.get_value(2, i), p.get_value(3, i)});
    c.vertex_fixed_.push_back(false);
    most = MAX(most, ABS(x));
    most = MAX(most, ABS(y));
  }
  c.domain_extent_ = 2.1 * most;
}

inline void domain_vertices(MeshConstruction& c, ParaReader& r)
{
  for (size_t i = 0; i < c.vertex_pos_.size(); ++i)
  {
    const Vec2d &p = c.vertex_pos_[i], &q = c.vertex_props_[i];
    if (c.vertex_fixed_[i]) c.domain_->add_fixed_vertex(p.x, p.y, q.x, q.y); else c.domain_->add_vertex(p.x, p.y, q.x, q.y);
  }
}

inline void fixed_edges(MeshConstruction& c, ParaReader& r)
{
  Domain& d = *c.domain_;
  while (r.query<int>("fixed_edges"))
  {
    const size_t n = d.verts_.size();
    auto p = r.get_parameter<int>("fixed_edges");
    for (size_t i = 0; i < p.rows(); ++i)
    {
      const size_t a = p.get_value(0, i), b = p.get_value(1, i);
      if (a >= n || b >= n) throw_error("");
      d.add_fixed_edge(d.verts_[a], d.verts_[b]);
    }
  }
}

inline void mandatory(MeshConstruction& c, ParaReader& r)
{
  if (!r.query<std::string>("output_prefix")) throw_error("");
  if (!r.query<std::string>("output_format")) throw_error("");
  c.output_prefix_ = r.get_value<std::string>("output_prefix");
  c.output_format_ = r.get_value<std::string>("output_format");
  if (!r.query<std::string>("size_function")) throw_error("");
}

inline void make_domain(MeshConstruction& c, ParaReader& r)
{
  UserSizeFunction f = init_size_function(r.get_value<std::string>("size_function"));
  c.domain_ = std::make_unique<Domain>(f, c.domain_extent_);
}

// run reports success only if every mesh of the file succeeded
inline bool run(TQMeshApp& a)
{
  MeshConstruction c;
  int id = 0;
  bool ok = true;
  while (a.reader_.query("mesh_reader"))
  {
    ParaReader& r = a.reader_.get_block("mesh_reader");
    const bool one = c.construct_mesh(id, r);
    ok = ok && one;
    ++id;
  }
  return ok;
}

// the numbers of a shape definition in the order of the documentation
inline void rect(Boundary& b, Parameter<double>& p)
{ b.set_shape_rectangle((int)p.get_value(0), Vec2d{p.get_value(1), p.get_value(2)}, p.get_value(3), p.get_value(4), p.get_value(5), p.get_value(6)); }
inline void circ(Boundary& b, Parameter<double>& p)
{ b.set_shape_circle((int)p.get_value(0), Vec2d{p.get_value(1), p.get_value(2)}, p.get_value(3), (int)p.get_value(4), p.get_value(5), p.get_value(6)); }
inline void square(Boundary& b, Parameter<double>& p)
{ b.set_shape_square((int)p.get_value(0), Vec2d{p.get_value(1), p.get_value(2)}, p.get_value(3), p.get_value(4), p.get_value(5)); }
inline void triangle(Boundary& b, Parameter<double>& p)
{ b.set_shape_triangle((int)p.get_value(0), Vec2d{p.get_value(1), p.get_value(2)}, p.get_value(3), p.get_value(4), p.get_value(5)); }
inline void edges(Boundary& b, Domain& d, size_t n, Parameter<int>& p)
{
  for (size_t i = 0; i < p.rows(); ++i)
  {
    const size_t v = p.get_value(0, i), w = p.get_value(1, i);
    if (v >= n || w >= n) throw_error("");
    b.add_edge(d.verts_[v], d.verts_[w], p.get_value(2, i));
  }
}
inline void coords(Boundary& b, Parameter<double>& p)
{
  std::vector<Vec2d> xy, props;
  std::vector<int> colors;
  for (size_t i = 0; i < p.rows(); ++i)
  {
    const int m = (int)p.get_value(2, i);
    if (m < 0) throw_error("");
    xy.push_back(Vec2d{p.get_value(0, i), p.get_value(1, i)});
    props.push_back(Vec2d{p.get_value(3, i), p.get_value(4, i)});
    colors.push_back(m);
  }
  b.set_shape_from_coordinates(xy, colors, props);
}

// the first kind of exterior boundary that the input defines is used
inline void exterior(MeshConstruction& c, ParaReader& r)
{
  Domain& d = *c.domain_;
  if (r.query<int>("extr_bdry_edges")) { auto p = r.get_parameter<int>("extr_bdry_edges"); Boundary& b = d.add_exterior_boundary(); edges(b, d, d.verts_.size(), p); }
  else if (r.query<double>("extr_bdry_coords", true, -1.0)) { auto p = r.get_parameter<double>("extr_bdry_coords"); coords(d.add_exterior_boundary(), p); }
  else if (r.query<double>("extr_bdry_rect", true, -1.0)) { auto p = r.get_parameter<double>("extr_bdry_rect"); rect(d.add_exterior_boundary(), p); }
  else if (r.query<double>("extr_bdry_circ", true, -1.0)) { auto p = r.get_parameter<double>("extr_bdry_circ"); circ(d.add_exterior_boundary(), p); }
  else if (r.query<double>("extr_bdry_square", true, -1.0)) { auto p = r.get_parameter<double>("extr_bdry_square"); square(d.add_exterior_boundary(), p); }
  else if (r.query<double>("extr_bdry_triangle", true, -1.0)) { auto p = r.get_parameter<double>("extr_bdry_triangle"); triangle(d.add_exterior_boundary(), p); }
  else if (r.query<std::string>("extr_bdry_csv")) { Boundary& b = d.add_exterior_boundary(); b.set_shape_from_csv(r.get_value<std::string>("extr_bdry_csv")); }
}

// every interior boundary of the input is added
inline void interior(MeshConstruction& c, ParaReader& r)
{
  Domain& d = *c.domain_;
  while (r.query<int>("intr_bdry_edges")) { const size_t n = d.verts_.size(); Boundary& b = d.add_interior_boundary(); auto p = r.get_parameter<int>("intr_bdry_edges"); edges(b, d, n, p); }
  while (r.query<double>("intr_bdry_coords", true, -1.0)) { Boundary& b = d.add_interior_boundary(); auto p = r.get_parameter<double>("intr_bdry_coords"); coords(b, p); }
  while (r.query<double>("intr_bdry_rect", true, -1.0)) { Boundary& b = d.add_interior_boundary(); auto p = r.get_parameter<double>("intr_bdry_rect"); rect(b, p); }
  while (r.query<double>("intr_bdry_circ", true, -1.0)) { Boundary& b = d.add_interior_boundary(); auto p = r.get_parameter<double>("intr_bdry_circ"); circ(b, p); }
  while (r.query<double>("intr_bdry_square", true, -1.0)) { Boundary& b = d.add_interior_boundary(); auto p = r.get_parameter<double>("intr_bdry_square"); square(b, p); }
  while (r.query<double>("intr_bdry_triangle", true, -1.0)) { Boundary& b = d.add_interior_boundary(); auto p = r.get_parameter<double>("intr_bdry_triangle"); triangle(b, p); }
  while (r.query<std::string>("intr_bdry_csv")) { Boundary& b = d.add_interior_boundary(); b.set_shape_from_csv(r.get_value<std::string>("intr_bdry_csv")); }
}

// layers, triangulation and conversion, merge with the mesh before, refinement, smoothing, export, final check
inline bool generate(MeshConstruction& c)
{
  MeshGenerator& g = c.mesh_generator_;
  Domain& d = *c.domain_;
  Mesh& m = g.new_mesh(d, c.mesh_id_, c.element_color_);
  for (size_t i = 0; i < c.quad_layer_vertices_.size(); ++i)
  {
    g.quad_layer_generation(m).show_progress(true).n_layers(c.quad_layer_numbers_[i]).first_height(c.quad_layer_heights_[i]).growth_rate(c.quad_layer_growth_[i])
      .starting_position(c.quad_layer_vertices_[i].first).ending_position(c.quad_layer_vertices_[i].second).generate_elements();
  }
  if (c.algorithm_ == "Tri-to-Quad") { g.triangulation(m).show_progress(true).generate_elements(); g.tri2quad_modification(m).modify(); }
  else if (c.algorithm_ == "Triangulation") g.triangulation(m).show_progress(true).generate_elements();
  else throw_error("");
  if (g.size() > 1) g.merge_meshes(m, g.mesh(0));
  for (size_t i = 0; i < c.quad_refinements_; ++i) g.quad_refinement(m).refine();
  g.mixed_smoothing(m).quad_layer_smoothing(c.smooth_quad_layers_).smooth(c.smoothing_iterations_);
  bool written;
  if (c.output_format_ == "VTU" || c.output_format_ == "vtu") written = g.write_mesh(m, c.output_prefix_ + ".vtu", MeshExportType::VTU);
  else if (c.output_format_ == "TXT" || c.output_format_ == "txt") written = g.write_mesh(m, c.output_prefix_ + ".txt", MeshExportType::TXT);
  else written = g.write_mesh(m, "DUMMY", MeshExportType::COUT);
  if (!written) return false;
  MeshChecker check{m, d};
  return check.check_completeness();
}

// the names under which the input file offers each parameter
inline void keys(TQMeshApp& a)
{
  a.reader_.new_block_parameter("mesh_reader", "Define mesh:", "End mesh");
  ParaReader& r = a.reader_.get_block("mesh_reader");
  r.new_scalar_parameter<std::string>("output_prefix", "Output file prefix:");
  r.new_scalar_parameter<std::string>("output_format", "Output file format:");
  r.new_matrix_parameter<double>("vertices", "Define boundary vertices:", "End boundary vertices", 4);
  r.new_scalar_parameter<std::string>("size_function", "Element size:");
  r.new_scalar_parameter<int>("elem_color", "Element color:");
  r.new_scalar_parameter<std::string>("algorithm", "Meshing algorithm:");
  r.new_scalar_parameter<size_t>("quad_refinements", "Number of quad refinements:");
  r.new_scalar_parameter<size_t>("smoothing_iterations", "Number of smoothing iterations:");
  r.new_scalar_parameter<bool>("smooth_quad_layers", "Smooth quad layers:");
  r.new_vector_parameter<double>("quad_layers", "Add quad layers:", 7);
  r.new_matrix_parameter<double>("fixed_vertices", "Define fixed vertices:", "End fixed vertices", 4);
  r.new_matrix_parameter<int>("fixed_edges", "Define fixed edges:", "End fixed edges", 2);
  r.new_scalar_parameter<std::string>("extr_bdry_csv", "Define exterior boundary from CSV file:");
  r.new_scalar_parameter<std::string>("intr_bdry_csv", "Define interior boundary from CSV file:");
  r.new_matrix_parameter<int>("extr_bdry_edges", "Define exterior boundary edges:", "End exterior boundary edges", 3);
  r.new_matrix_parameter<int>("intr_bdry_edges", "Define interior boundary edges:", "End interior boundary edges", 3);
  r.new_matrix_parameter<double>("extr_bdry_coords", "Define exterior boundary:", "End exterior boundary", 5);
  r.new_matrix_parameter<double>("intr_bdry_coords", "Define interior boundary:", "End interior boundary", 5);
  r.new_vector_parameter<double>("extr_bdry_rect", "Define exterior rectangular boundary:", 7);
  r.new_vector_parameter<double>("intr_bdry_rect", "Define interior rectangular boundary:", 7);
  r.new_vector_parameter<double>("extr_bdry_circ", "Define exterior circular boundary:", 7);
  r.new_vector_parameter<double>("intr_bdry_circ", "Define interior circular boundary:", 7);
  r.new_vector_parameter<double>("extr_bdry_square", "Define exterior squared boundary:", 6);
  r.new_vector_parameter<double>("intr_bdry_square", "Define interior squared boundary:", 6);
  r.new_vector_parameter<double>("extr_bdry_triangle", "Define exterior triangular boundary:", 6);
  r.new_vector_parameter<double>("intr_bdry_triangle", "Define interior triangular boundary:", 6);
}


// the exit status tells whether all meshes have been created
inline int entry(int argc, char** argv)
{
  if (argc < 2) return EXIT_SUCCESS;
  try
  {
    TQMeshApp a{argv[1]};
    if (!a.run()) return EXIT_FAILURE;
  }
  catch (const std::exception&) { return EXIT_FAILURE; }
  return EXIT_SUCCESS;
}


// the size function is the expression of the input file at the point asked for
inline double use_size(const std::string& s, const Vec2d& p) { auto f = init_size_function(s); return f(p); }
inline double means_size(const std::string& s, const Vec2d& p)
{
  symbol_table.add_variable("x", x_size_function);
  symbol_table.add_variable("y", y_size_function);
  expression.register_symbol_table(symbol_table);
  if (!parser.compile(s, expression)) throw_error("");
  x_size_function = p.x;
  y_size_function = p.y;
  return expression.value();
}

}}
