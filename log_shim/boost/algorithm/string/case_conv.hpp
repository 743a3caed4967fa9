// Stand-in: the case of ASCII letters, as the "C" locale has it, without the locale objects.
#ifndef VERIF_CASE_CONV
#define VERIF_CASE_CONV
namespace boost { namespace algorithm {
template <typename S> void to_lower(S& s) { for (auto& c : s) { bool l = c >= 'A' && c <= 'Z'; c = static_cast<char>(c + (l ? 32 : 0)); } }
template <typename S> void to_upper(S& s) { for (auto& c : s) { bool l = c >= 'a' && c <= 'z'; c = static_cast<char>(c - (l ? 32 : 0)); } }
template <typename S> S to_lower_copy(S s) { to_lower(s); return s; }
template <typename S> S to_upper_copy(S s) { to_upper(s); return s; }
}
using algorithm::to_lower; using algorithm::to_upper; using algorithm::to_lower_copy; using algorithm::to_upper_copy;
}
#endif
