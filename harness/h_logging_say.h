// One logging statement, by every family of macros. Included twice: for debug and for release builds.
#include "icl_core_logging/Logging.h"
#include <string>

struct Said { int evaluated; int line; };
static const std::string& seen(Said& r, const std::string& t) { ++r.evaluated; return t; }

#define VF_ARG seen(r, t) << icl_core::logging::endl
#define VF_FMT "%s\n", seen(r, t).c_str()
#define VF_LEVELS(P, X, ...) \
  switch (l) { case 0: P##TRACE##X(__VA_ARGS__); break; case 1: P##DEBUG##X(__VA_ARGS__); break; case 2: P##INFO##X(__VA_ARGS__); break; \
    case 3: P##WARNING##X(__VA_ARGS__); break; default: P##ERROR##X(__VA_ARGS__); break; }
#define VF_SAY(P, ST) \
  if (!f && w == "") { VF_LEVELS(P##_, , ST, VF_ARG) } \
  else if (!f && w == "C") { VF_LEVELS(P##_, _C, ST, K, VF_ARG) } \
  else if (!f) { VF_LEVELS(P##_, _CO, ST, K, "obj", VF_ARG) } \
  else if (w == "") { VF_LEVELS(P##_FMT_, , ST, VF_FMT) } \
  else if (w == "C") { VF_LEVELS(P##_FMT_, _C, ST, K, VF_FMT) } \
  else { VF_LEVELS(P##_FMT_, _CO, ST, K, "obj", VF_FMT) }
#define VF_SIGNATURE (Said& r, int l, bool f, const std::string& w, const std::string& t)
