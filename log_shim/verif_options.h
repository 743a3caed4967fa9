// Stand-in for boost::program_options: options are "--name=value", "--name value" or a switch "--name", by their full
// names; a name ending in '*' also covers every longer name. What is not known is passed on.
#pragma once
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
#include "boost/shared_ptr.hpp"
#include "boost/make_shared.hpp"
// the options in the configuration file, as the parser of the file would find them
extern std::vector<std::pair<std::string, std::string>>* verif_config_options;
namespace boost { namespace program_options {
class error : public std::logic_error { public: explicit error(const std::string& w) : std::logic_error(w) {} };
enum verif_kind { verif_text, verif_number, verif_switch, verif_none };
class value_semantic {
 public:
  virtual ~value_semantic() {}
  verif_kind kind = verif_none;
  bool has_default = false;
  std::string text;
  int number = 0;
  std::string* to_text = nullptr;
  int* to_number = nullptr;
  bool* to_switch = nullptr;
};
template <typename T, typename C = char> class typed_value;
template <typename C> class typed_value<std::string, C> : public value_semantic {
 public:
  explicit typed_value(std::string* p) { kind = verif_text; to_text = p; }
  typed_value* default_value(const std::string& s) { has_default = true; text = s; return this; }
  typed_value* required() { return this; }
};
template <typename C> class typed_value<int, C> : public value_semantic {
 public:
  explicit typed_value(int* p) { kind = verif_number; to_number = p; }
  typed_value* default_value(int n) { has_default = true; number = n; return this; }
  typed_value* required() { return this; }
};
template <typename C> class typed_value<bool, C> : public value_semantic {
 public:
  explicit typed_value(bool* p) { kind = verif_switch; to_switch = p; has_default = true; }
  typed_value* default_value(bool b) { has_default = true; number = b; return this; }
};
template <typename T> typed_value<T>* value() { return new typed_value<T>(nullptr); }
template <typename T> typed_value<T>* value(T* p) { return new typed_value<T>(p); }
inline typed_value<bool>* bool_switch() { return new typed_value<bool>(nullptr); }
inline typed_value<bool>* bool_switch(bool* p) { return new typed_value<bool>(p); }
class option_description {
 public:
  option_description(const char* n, const value_semantic* s, const char* = "") : name(n), semantic(s) {
    size_t comma = name.find(',');
    if (comma != std::string::npos) { shorter = name.substr(comma + 1); name.resize(comma); }
  }
  const std::string& long_name() const { return name; }
  std::string name, shorter;
  std::shared_ptr<const value_semantic> semantic;
};
class options_description {
 public:
  options_description() {}
  explicit options_description(const std::string&) {}
  struct easy_init {
    options_description* d;
    easy_init& operator()(const char* n, const value_semantic* s, const char* t = "") { d->add(boost::make_shared<option_description>(n, s, t)); return *this; }
    easy_init& operator()(const char* n, const char* t) { d->add(boost::make_shared<option_description>(n, new value_semantic, t)); return *this; }
  };
  easy_init add_options() { return easy_init{this}; }
  void add(boost::shared_ptr<option_description> o) { all.push_back(o); }
  options_description& add(const options_description& o) { for (auto& x : o.all) all.push_back(x); return *this; }
  const option_description* known(const std::string& n) const {
    for (auto& o : all) if (o->name == n) return o.get();
    for (auto& o : all) if (o->name.back() == '*' && n.compare(0, o->name.size() - 1, o->name, 0, o->name.size() - 1) == 0) return o.get();
    return nullptr;
  }
  std::vector<boost::shared_ptr<option_description>> all;
};
inline std::ostream& operator<<(std::ostream& o, const options_description&) { return o << "options\n"; }
class variable_value {
 public:
  std::string text;
  int number = 0;
  bool by_default = false;
  std::shared_ptr<const value_semantic> semantic;
  bool empty() const { return false; }
  bool defaulted() const { return by_default; }
  template <typename T> T as() const { return get(static_cast<T*>(nullptr)); }
 private:
  std::string get(std::string*) const { return text; }
  int get(int*) const { return number; }
  bool get(bool*) const { return number != 0; }
};
class variables_map : public std::map<std::string, variable_value> {
 public:
  const variable_value& operator[](const std::string& n) const { static const variable_value none; auto i = find(n); return i == end() ? none : i->second; }
};
template <typename C> struct basic_option {
  std::string string_key;
  bool unregistered = false;
  std::vector<std::basic_string<C>> value, original_tokens;
};
typedef basic_option<char> option;
template <typename C> struct basic_parsed_options {
  std::vector<basic_option<C>> options;
  options_description description;
};
typedef basic_parsed_options<char> parsed_options;
typedef basic_parsed_options<wchar_t> wparsed_options;
template <typename C> std::string verif_narrow(const std::basic_string<C>& s) { std::string r; for (C c : s) r += (char)c; return r; }
template <typename C> class basic_command_line_parser {
 public:
  basic_command_line_parser(int argc, const C* const argv[]) { for (int i = 1; i < argc; ++i) args_.push_back(argv[i]); }
  explicit basic_command_line_parser(const std::vector<std::basic_string<C>>& a) : args_(a) {}
  basic_command_line_parser& options(const options_description& d) { r_.description.add(d); return *this; }
  basic_command_line_parser& allow_unregistered() { lenient_ = true; return *this; }
  basic_parsed_options<C> run() {
    for (size_t i = 0; i < args_.size(); ++i) {
      basic_option<C> o;
      o.original_tokens.push_back(args_[i]);
      std::string a = verif_narrow(args_[i]);
      const option_description* d = nullptr;
      size_t eq = a.find('=');
      if (a.size() > 2 && a[0] == '-' && a[1] == '-') {
        o.string_key = a.substr(2, eq == std::string::npos ? eq : eq - 2);
        d = r_.description.known(o.string_key);
        o.unregistered = !d;
      } else if (a == "-h") {
        o.string_key = "help";
        d = r_.description.known("help");
      } else {
        o.value.push_back(args_[i]);
      }
      if (o.unregistered && !lenient_) throw error("unknown option");
      if (eq != std::string::npos && eq + 1 == a.size() && o.value.empty()) throw error("the value is missing");
      if (d && (d->semantic->kind == verif_text || d->semantic->kind == verif_number)) {
        if (eq != std::string::npos) o.value.push_back(args_[i].substr(eq + 1));
        else if (i + 1 < args_.size() && !(args_[i + 1].size() && args_[i + 1][0] == '-')) { ++i; o.original_tokens.push_back(args_[i]); o.value.push_back(args_[i]); }
        else throw error("the value is missing");
      }
      r_.options.push_back(o);
    }
    return r_;
  }
 private:
  std::vector<std::basic_string<C>> args_;
  basic_parsed_options<C> r_;
  bool lenient_ = false;
};
typedef basic_command_line_parser<char> command_line_parser;
template <typename C> void store(const basic_parsed_options<C>& p, variables_map& m) {
  std::map<std::string, variable_value> now;
  for (auto& o : p.options) {
    if (o.string_key.empty() || o.unregistered) continue;
    const option_description* d = p.description.known(o.string_key);
    auto old = m.find(o.string_key);
    if (old != m.end() && !old->second.by_default) continue;      // what was stored first stays
    if (now.count(o.string_key)) throw error("given twice");
    variable_value v;
    v.semantic = d->semantic;
    if (o.value.size()) v.text = verif_narrow(o.value[0]);
    if (d->semantic->kind == verif_switch) v.number = 1;
    if (d->semantic->kind == verif_number) {
      bool minus = v.text.size() > 1 && v.text[0] == '-';
      long n = 0;
      for (size_t i = minus; i < v.text.size(); ++i) { if (v.text[i] < '0' || v.text[i] > '9' || i > 8) throw error("not a number"); n = n * 10 + (v.text[i] - '0'); }
      if (v.text.empty()) throw error("not a number");
      v.number = (int)(minus ? -n : n);
    }
    now[o.string_key] = v;
  }
  for (auto& n : now) static_cast<std::map<std::string, variable_value>&>(m)[n.first] = n.second;
  for (auto& d : p.description.all) {
    if (!d->semantic->has_default || m.count(d->name)) continue;
    variable_value v;
    v.semantic = d->semantic; v.text = d->semantic->text; v.number = d->semantic->number; v.by_default = true;
    static_cast<std::map<std::string, variable_value>&>(m)[d->name] = v;
  }
}
inline void notify(variables_map& m) {
  for (auto& e : m) {
    const value_semantic& s = *e.second.semantic;
    if (s.to_text) *s.to_text = e.second.text;
    if (s.to_number) *s.to_number = e.second.number;
    if (s.to_switch) *s.to_switch = e.second.number != 0;
  }
}
template <typename C> basic_parsed_options<C> parse_config_file(std::basic_istream<C>&, const options_description& d, bool lenient = false) {
  basic_parsed_options<C> r;
  r.description.add(d);
  for (auto& c : *verif_config_options) {
    basic_option<C> o;
    o.string_key = c.first;
    o.value.push_back(std::basic_string<C>(c.second.begin(), c.second.end()));
    o.unregistered = !d.known(c.first);
    if (o.unregistered && !lenient) throw error("unknown option");
    r.options.push_back(o);
  }
  return r;
}
enum collect_unrecognized_mode { include_positional, exclude_positional };
template <typename C> std::vector<std::basic_string<C>> collect_unrecognized(const std::vector<basic_option<C>>& os, collect_unrecognized_mode mode) {
  std::vector<std::basic_string<C>> r;
  for (auto& o : os) if (o.unregistered || (mode == include_positional && o.string_key.empty())) r.insert(r.end(), o.original_tokens.begin(), o.original_tokens.end());
  return r;
}
} }
