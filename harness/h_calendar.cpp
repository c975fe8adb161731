#include "vh.h"
#include <boost/lexical_cast.hpp>
#include <sstream>
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"
using namespace vh;
using icl_core::TimeSpan;
using icl_core::TimeStamp;

struct H
{
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    int64_t s = op.has("s") ? op.i("s") : 0;
    int64_t n = op.has("n") ? op.i("n") : 0;
    if (op.has("s")) { j.raw("s", big(s)); }
    if (op.has("n")) { j.i("n", n); }
    struct timespec ts = { time_t(s), long(n) };
    if (op.name == "new") {}
    else if (op.name == "fmt")
    {
      std::string zone = op.s("zone");
      setenv("TZ", zone.c_str(), 1);
      tzset();
      TimeStamp t(ts);
      char b[64] = "", c[64] = "";
      t.strfTime(b, 64, "%a %d/%m/%Y %H");
      t.strfLocaltime(c, 64, "%a %d/%m/%Y %H");
      j.s("zone", zone).bytes("ext", t.formatIso8601()).bytes("extutc", t.formatIso8601UTC());
      j.bytes("bas", t.formatIso8601Basic()).bytes("basutc", t.formatIso8601BasicUTC()).bytes("strf", b).bytes("strfl", c);
    }
    else if (op.name == "back")
    {
      TimeStamp t(ts);
      TimeStamp u = TimeStamp::fromIso8601BasicUTC(t.formatIso8601BasicUTC());
      J r;
      r.raw("s", big(int64_t(u.tsSec()))).i("n", int32_t(u.tsNSec()));
      j.raw("back", r.str());
    }
    else if (op.name == "parse")
    {
      TimeStamp t;
      bool ok = true;
      try { t = TimeStamp::fromIso8601BasicUTC(op.bytes("text")); } catch (const boost::bad_lexical_cast&) { ok = false; }
      J r;
      r.raw("s", big(int64_t(t.tsSec()))).i("n", int32_t(t.tsNSec()));
      j.bytes("text", op.bytes("text")).b("ok", ok).raw("t", r.str());
    }
    else if (op.name == "span") { std::ostringstream o; o << TimeSpan(s, n); j.bytes("text", o.str()); }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
