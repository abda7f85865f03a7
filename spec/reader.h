// Specification programs: the reader of parameter files.
namespace vp_spec { namespace reader {
using namespace TQMesh; using namespace CppUtils;
using std::string;

// values by column and row; positions outside give the first value
template <class T> inline T value1(const Parameter<T>& p, size_t i) { return i < p.ncol_ * p.nrow_ ? p.values_[i] : p.values_[0]; }
template <class T> inline T value2(const Parameter<T>& p, size_t i, size_t j) { const size_t k = i + j * p.ncol_; return k < p.ncol_ * p.nrow_ ? p.values_[k] : p.values_[0]; }
template <class T> inline void put1(Parameter<T>& p, size_t i, T v) { if (i < p.ncol_ * p.nrow_) p.values_[i] = v; }
template <class T> inline void put2(Parameter<T>& p, size_t i, size_t j, T v) { if (i < p.ncol_ && j < p.nrow_) p.values_[i + j * p.ncol_] = v; }
template <class T> inline void add_row(Parameter<T>& p)
{ if (p.type_ != ParaType::matrix) return; p.nrow_ += 1; for (size_t i = 0; i < p.ncol_; ++i) p.values_.push_back(T{}); }
template <class T> inline void resize(Parameter<T>& p) { p.nrow_ = 1; p.values_.resize(p.ncol_); }
template double value1<double>(const Parameter<double>&, size_t); template int value1<int>(const Parameter<int>&, size_t);
template double value2<double>(const Parameter<double>&, size_t, size_t); template int value2<int>(const Parameter<int>&, size_t, size_t);
template void put1<double>(Parameter<double>&, size_t, double); template void put1<int>(Parameter<int>&, size_t, int);
template void put2<double>(Parameter<double>&, size_t, size_t, double); template void put2<int>(Parameter<int>&, size_t, size_t, int);
template void add_row<double>(Parameter<double>&); template void add_row<int>(Parameter<int>&);
template void resize<double>(Parameter<double>&); template void resize<int>(Parameter<int>&);

// the next line of the block, after the last hit, that contains the key; the last occurrence in that line counts
inline QueryContainer find(ParameterBase& p, const string& key, const strVec& text)
{
  QueryContainer q;
  if (p.block_index_ >= p.block_end_) return q;
  size_t at = string::npos, line = string::npos, hit;
  for (size_t i = p.block_start_ + p.block_index(); i < p.block_end_; ++i)
  {
    size_t from = 0;
    while ((hit = text[i].find(key, from)) != string::npos)
    {
      at = hit; line = i; from = hit + 1;
      p.block_index_ = (int)(i + 1 - p.block_start_);
    }
    if (line != string::npos) break;
  }
  if (line == string::npos) return q;
  q.found = true; q.line_index = line; q.line_pos = at; q.query_size = key.size();
  return q;
}

// the text behind the key, without comment and blanks
inline string behind(const QueryContainer& q, const strVec& text)
{
  string s = text[q.line_index].substr(q.line_pos + q.query_size);
  s = s.substr(0, s.find(ParaFileComment));
  s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
  return s;
}
template <class T> inline bool scalar(ParaBlock& b, Parameter<T>& p, const strVec& text)
{
  auto q = p.get_query_data(p.start_key_, text);
  if (!q.found) return false;
  const string s = behind(q, text);
  try { p.set_value(0, b.template string_to_single_value<T>(s)); p.found_ = true; }
  catch (...) { return false; }
  return true;
}
template <class T> inline bool vector(ParaBlock& b, Parameter<T>& p, const strVec& text, bool fill, T def)
{
  auto q = p.get_query_data(p.start_key_, text);
  if (!q.found) return false;
  string s = behind(q, text);
  std::vector<T> v = b.process_vector_query(p, s, fill, def);
  if (v.size() < p.ncol_) return false;
  for (size_t i = 0; i < p.ncol_; ++i) p.set_value(i, v[i]);
  p.found_ = true;
  return true;
}
template <class T> inline bool matrix(ParaBlock& b, Parameter<T>& p, const strVec& text, bool fill, T def)
{
  auto q = p.get_query_data(p.start_key_, text);
  if (!q.found) return false;
  auto e = p.get_query_data(p.end_key_, text);
  if (!e.found) return false;
  std::vector<string> lines;
  for (size_t i = q.line_index + 1; i < e.line_index; ++i) lines.push_back(text[i]);
  std::vector<T> v = b.process_matrix_query(p, lines, fill, def);
  const size_t rows = v.size() / p.ncol_;
  if (v.size() != p.ncol_ * rows) return false;
  p.resize();
  for (size_t j = 0; j < rows; ++j)
  {
    for (size_t i = 0; i < p.ncol_; ++i) p.set_value(i + j * p.ncol_, v[i + j * p.ncol_]);
    if (j < rows - 1) p.add_row();
  }
  p.found_ = true;
  return true;
}
template bool scalar<double>(ParaBlock&, Parameter<double>&, const strVec&); template bool scalar<int>(ParaBlock&, Parameter<int>&, const strVec&);
template bool scalar<bool>(ParaBlock&, Parameter<bool>&, const strVec&); template bool scalar<size_t>(ParaBlock&, Parameter<size_t>&, const strVec&); template bool scalar<string>(ParaBlock&, Parameter<string>&, const strVec&);
template bool vector<double>(ParaBlock&, Parameter<double>&, const strVec&, bool, double); template bool vector<int>(ParaBlock&, Parameter<int>&, const strVec&, bool, int);
template bool matrix<double>(ParaBlock&, Parameter<double>&, const strVec&, bool, double); template bool matrix<int>(ParaBlock&, Parameter<int>&, const strVec&, bool, int);

// one value per delimited entry; what cannot be read is left out, or replaced by the default if one is wanted, and missing entries are filled up
inline string bare(string s)
{
  s.erase(std::remove(s.begin(), s.end(), '('), s.end());
  s.erase(std::remove(s.begin(), s.end(), ')'), s.end());
  s.erase(std::remove(s.begin(), s.end(), '['), s.end());
  s.erase(std::remove(s.begin(), s.end(), ']'), s.end());
  return s;
}
template <class T> inline void entries(const ParaBlock& b, Parameter<T>& p, const string& text, bool fill, T def, std::vector<T>& r)
{
  string s;
  std::stringstream in(text);
  size_t n = 0;
  while (std::getline(in, s, ParaFileDelimiter))
  {
    s = bare(s);
    try { r.push_back(b.template string_to_single_value<T>(s)); ++n; }
    catch (...) { if (!fill) continue; r.push_back(def); ++n; }
  }
  if (fill) for (; n < p.ncol_; ++n) r.push_back(def);
}
template <class T> inline std::vector<T> row(const ParaBlock& b, Parameter<T>& p, string& text, bool fill, T def)
{ std::vector<T> r; entries(b, p, text, fill, def, r); return r; }
template <class T> inline std::vector<T> table(const ParaBlock& b, Parameter<T>& p, std::vector<string>& lines, bool fill, T def)
{ std::vector<T> r; for (size_t i = 0; i < lines.size(); ++i) entries(b, p, lines[i], fill, def, r); return r; }
template std::vector<double> row<double>(const ParaBlock&, Parameter<double>&, string&, bool, double); template std::vector<int> row<int>(const ParaBlock&, Parameter<int>&, string&, bool, int);
template std::vector<double> table<double>(const ParaBlock&, Parameter<double>&, std::vector<string>&, bool, double); template std::vector<int> table<int>(const ParaBlock&, Parameter<int>&, std::vector<string>&, bool, int);

// a text that is no value of the type is refused
template <class T> inline T parse(const ParaBlock& b, const string& s)
{ std::istringstream in(s); T v; in >> v; if (in.fail()) b.error(""); return v; }
template double parse<double>(const ParaBlock&, const string&); template int parse<int>(const ParaBlock&, const string&); template bool parse<bool>(const ParaBlock&, const string&);
template size_t parse<size_t>(const ParaBlock&, const string&); template string parse<string>(const ParaBlock&, const string&);

// each kind of parameter is read by its own routine
template <class T> inline bool query(ParaBlock& b, const string& name, bool fill, T def)
{
  if (!b.content_) return false;
  Parameter<T>& p = b.template get_parameter<T>(name);
  switch (p.type_)
  {
    case ParaType::scalar: return b.query_scalar(p, *b.content_);
    case ParaType::vector: return b.query_vector(p, *b.content_, fill, def);
    case ParaType::matrix: return b.query_matrix(p, *b.content_, fill, def);
    default: return false;
  }
}
template bool query<double>(ParaBlock&, const string&, bool, double); template bool query<int>(ParaBlock&, const string&, bool, int);

// the next block; its parameters are looked for inside of it from its beginning
inline bool block(ParaBlock& r, const string& name)
{
  if (!r.content_) return false;
  ParaBlock& b = r.get_block(name);
  const size_t n = r.content_->size();
  if (b.block_end_ < n) { b.block_start_ = b.block_end_; b.block_end_ = n; b.block_index_ = 0; }
  auto s = b.get_query_data(b.start_key_, *r.content_);
  if (!s.found) return false;
  auto e = b.get_query_data(b.end_key_, *r.content_);
  if (!e.found) return false;
  b.block_start_ = s.line_index;
  b.block_end_ = e.line_index;
  for (auto& p : b.para_list_) { p->block_start_ = s.line_index; p->block_end_ = e.line_index; p->block_index_ = 0; }
  return true;
}

// unknown names are refused, and values only handed out if they have been found
template <class T> inline Parameter<T>& parameter(ParaBlock& b, const string& name)
{ if (!b.para_map_.count(name)) b.error(""); return *dynamic_cast<Parameter<T>*>(b.para_list_[b.para_map_[name]].get()); }
inline ParaBlock& sub(ParaBlock& b, const string& name)
{ if (!b.para_map_.count(name)) b.error(""); return *dynamic_cast<ParaBlock*>(b.para_list_[b.para_map_[name]].get()); }
template <class T> inline T first(ParaBlock& b, const string& name)
{ Parameter<T>& p = b.template get_parameter<T>(name); if (!p.found_) b.error(""); return p.get_value(0); }
template Parameter<double>& parameter<double>(ParaBlock&, const string&); template Parameter<int>& parameter<int>(ParaBlock&, const string&);
template double first<double>(ParaBlock&, const string&); template int first<int>(ParaBlock&, const string&); template string first<string>(ParaBlock&, const string&);

// all lines of the file that are no comments; a file that cannot be opened or read to its end is refused
inline strVec_ptr content(ParaBlock& b, const string& path)
{
  strVec_ptr r = std::make_shared<strVec>();
  std::ifstream in{path};
  if (!in) b.error("");
  in.exceptions(in.exceptions() | std::ios_base::badbit);
  string line;
  while (std::getline(in, line))
  {
    string s = line;
    s.erase(std::remove_if(s.begin(), s.end(), isspace), s.end());
    if (s[0] != '#') r->push_back(line);
  }
  if (!in.eof()) b.error("");
  return r;
}

// a name is defined once and has a key
inline void add_block(ParaBlock& r, const string& name, const string& from, const string& to)
{
  if (r.para_map_.count(name)) r.error("");
  if (from.size() < 1 || to.size() < 1) r.error("");
  ParaBlock* b = new ParaBlock{from, to, r.block_start_, r.block_end_};
  r.para_list_.emplace_back(b);
  r.para_map_[name] = r.para_list_.size() - 1;
  b->content_ = r.content_;
}
template <class T> inline void add_scalar(ParaBlock& r, const string& name, const string& key)
{
  if (r.para_map_.count(name)) r.error("");
  if (key.size() < 1) r.error("");
  r.para_list_.emplace_back(new Parameter<T>{ParaType::scalar, key, 1, r.block_start_, r.block_end_});
  r.para_map_[name] = r.para_list_.size() - 1;
}
template <class T> inline void add_vector(ParaBlock& r, const string& name, const string& key, size_t n)
{
  if (r.para_map_.count(name)) r.error("");
  if (key.size() < 1) r.error("");
  r.para_list_.emplace_back(new Parameter<T>{ParaType::vector, key, n, r.block_start_, r.block_end_});
  r.para_map_[name] = r.para_list_.size() - 1;
}
template <class T> inline void add_matrix(ParaBlock& r, const string& name, const string& from, const string& to, size_t n)
{
  if (r.para_map_.count(name)) r.error("");
  if (from.size() < 1 || to.size() < 1) r.error("");
  r.para_list_.emplace_back(new Parameter<T>{ParaType::matrix, from, to, n, r.block_start_, r.block_end_});
  r.para_map_[name] = r.para_list_.size() - 1;
}
template void add_scalar<double>(ParaBlock&, const string&, const string&); template void add_scalar<int>(ParaBlock&, const string&, const string&);
template void add_vector<double>(ParaBlock&, const string&, const string&, size_t); template void add_matrix<double>(ParaBlock&, const string&, const string&, const string&, size_t);
template void add_matrix<int>(ParaBlock&, const string&, const string&, const string&, size_t);


// boundary files: x, y, color and optionally size and range per line; anything that is no number, lacks a coordinate or has no valid color is refused
inline void csv(CSVBoundaryReader& r, const string& path)
{
  r.vertex_coords_.clear(); r.vertex_props_.clear(); r.edge_colors_.clear();
  std::ifstream in{path};
  if (!in.is_open()) throw_error("");
  string line;
  while (std::getline(in, line))
  {
    Vec2d xy{0.0, 0.0}, props{0.0, 0.0};
    int color = -1, n = 0;
    std::istringstream cells(line);
    string cell;
    while (std::getline(cells, cell, ','))
    {
      try
      {
        if (n == 0) xy.x = std::stod(cell);
        else if (n == 1) xy.y = std::stod(cell);
        else if (n == 2) color = std::stoi(cell);
        else if (n == 3) props.x = std::stod(cell);
        else if (n == 4) props.y = std::stod(cell);
      }
      catch (const std::invalid_argument&) { throw_error(""); }
      catch (const std::out_of_range&) { throw_error(""); }
      ++n;
    }
    if (n < 2) throw_error("");
    if (color < 0) throw_error("");
    r.vertex_coords_.push_back(xy);
    r.vertex_props_.push_back(props);
    r.edge_colors_.push_back(color);
  }
}

}}
