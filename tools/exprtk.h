// Declarations of the expression library as far as the application uses it (the library itself is not analysed).
#pragma once
#include <string>
namespace exprtk {
template <class T> struct symbol_table { bool add_variable(const std::string& name, T& v, bool constant = false); bool add_constant(const std::string& name, const T& v); bool add_constants(); void clear(); };
template <class T> struct expression { void register_symbol_table(symbol_table<T>& t); T value() const; };
template <class T> struct parser { bool compile(const std::string& text, expression<T>& e); std::string error() const; };
}
