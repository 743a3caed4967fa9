// Stand-ins for the formatting library and the random source (the harness decides what they give).
#pragma once
#define BOOST_FORMAT_HPP
#include <cstdint>
#include <random>
#include <string>
// the formatted number is kept exactly; the text shows a place holder
extern double verif_shown;
extern int verif_formats;
namespace boost {
struct format {
  explicit format(const char* f) : text(f) {}
  explicit format(const std::string& f) : text(f) {}
  format& operator%(double d) { verif_shown = d; ++verif_formats; ok = text == "%.2f" || text == "%1$.2f" || text == "%|.2f|"; return *this; }
  std::string str() const { return ok ? "#" : "?"; }
  std::string text; bool ok = false;
};
inline std::string str(const format& f) { return f.str(); }
}
template <> std::mt19937::result_type std::mt19937::operator()();
