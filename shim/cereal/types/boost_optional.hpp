// Stand-in for the cereal extension header the repository expects (same wire format as cereal's std::optional).
#pragma once
#include "boost/optional.hpp"
#include "cereal/cereal.hpp"
namespace cereal {
template <class Archive, typename T>
inline void CEREAL_SAVE_FUNCTION_NAME(Archive& ar, const boost::optional<T>& o) {
  if (!o) { ar(CEREAL_NVP_("nullopt", true)); return; }
  ar(CEREAL_NVP_("nullopt", false), CEREAL_NVP_("data", *o));
}
template <class Archive, typename T>
inline void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, boost::optional<T>& o) {
  bool nullopt;
  ar(CEREAL_NVP_("nullopt", nullopt));
  if (nullopt) { o = boost::none; return; }
  T t;
  ar(CEREAL_NVP_("data", t));
  o = std::move(t);
}
}  // namespace cereal
