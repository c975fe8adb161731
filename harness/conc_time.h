// Deadlines in microseconds of virtual time since the start of the episode.
#ifndef CONC_TIME_H
#define CONC_TIME_H
#include "conc.h"
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"

namespace conc {
//! The absolute instant.
inline icl_core::TimeStamp at(int64_t us)
{
  return icl_core::TimeStamp(uint64_t(sched::base_sec() + (us >= 0 ? us / 1000000 : -((-us + 999999) / 1000000))), uint32_t((us % 1000000 + 1000000) % 1000000 * 1000));
}
inline icl_core::TimeSpan span(int64_t us) { return icl_core::TimeSpan::createFromUSec(us); }
//! The deadline of a request: of "...abs" the argument, of "...rel" the argument from now on.
inline int64_t deadline(const Op& o)
{
  std::string f = o.raw("f");
  std::string k = f.size() < 3 ? "" : f.substr(f.size() - 3);
  int64_t v = o.has("us") ? o.i("us") : 0;
  return k == "abs" ? v : k == "rel" ? sched::now_us() + v : 2000000000;
}
}
#endif
