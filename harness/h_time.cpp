#include "vh.h"
#include <boost/date_time/posix_time/posix_time.hpp>
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"
using namespace vh;
using icl_core::TimeSpan;
using icl_core::TimeStamp;

static struct timeval g_now;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { *tv = g_now; return 0; }

template <typename T> std::string cmp(const T& a, const T& b)
{
  J j;
  j.b("lt", a < b).b("le", a <= b).b("gt", a > b).b("ge", a >= b).b("eq", a == b).b("ne", a != b);
  return j.str();
}
template <typename T> void parts(J& j, const T& v)
{
  struct timespec ts = v.timespec();
  j.raw("days", big(v.days())).i("hours", v.hours()).i("min", v.minutes()).i("s60", v.seconds());
  j.i("milli", v.milliSeconds()).i("micro", v.microSeconds()).i("nano", v.nanoSeconds());
  j.raw("tvsec", big(ts.tv_sec)).i("tvnsec", ts.tv_nsec);
}

struct H
{
  TimeSpan x;
  TimeStamp t;
  std::string jx() const { J r; r.raw("s", big(x.tsSec())).i("n", x.tsNSec()); return r.str(); }
  std::string jt() const { J r; r.raw("s", big(int64_t(t.tsSec()))).i("n", int32_t(t.tsNSec())); return r.str(); }
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    int64_t s = op.has("s") ? op.i("s") : 0;
    int64_t n = op.has("n") ? op.i("n") : 0;
    std::string how = op.has("how") ? op.s("how") : "";
    if (op.has("s")) { j.raw("s", big(s)); }
    if (op.has("n")) { j.i("n", n); }
    if (op.has("how")) { j.s("how", how); }
    struct timespec ts = { time_t(s), long(n) };
    if (op.name == "new") { x = TimeSpan(); t = TimeStamp(); j.raw("x", jx()).raw("t", jt()); }
    else if (op.name == "span")
    {
      if (how == "ctor") { x = TimeSpan(s, n); }
      else if (how == "timespec") { x = TimeSpan(ts); }
      else if (how == "sec") { x.fromSec(s); }
      else if (how == "msec") { x.fromMSec(s); }
      else if (how == "usec") { x.fromUSec(s); }
      else if (how == "csec") { x = TimeSpan::createFromSec(s); }
      else if (how == "cmsec") { x = TimeSpan::createFromMSec(s); }
      else if (how == "cusec") { x = TimeSpan::createFromUSec(s); }
      else { _exit(71); }
      j.raw("x", jx());
    }
    else if (op.name == "add") { if (how == "0") { x += TimeSpan(s, n); } else { x = x + TimeSpan(s, n); } j.raw("x", jx()); }
    else if (op.name == "sub") { if (how == "0") { x -= TimeSpan(s, n); } else { x = x - TimeSpan(s, n); } j.raw("x", jx()); }
    else if (op.name == "subfrom") { x = TimeSpan(s, n) - x; j.raw("x", jx()); }
    else if (op.name == "abs") { x = icl_core::abs(x); j.raw("x", jx()); }
    else if (op.name == "mul") { x = x * (double(op.i("p")) / double(op.i("q"))); j.i("p", op.i("p")).i("q", op.i("q")).raw("x", jx()); }
    else if (op.name == "div") { x = x / (double(op.i("p")) / double(op.i("q"))); j.i("p", op.i("p")).i("q", op.i("q")).raw("x", jx()); }
    else if (op.name == "cmp") { TimeSpan y(s, n); j.raw("r", cmp(x, y)).raw("b", cmp(y, x)); }
    else if (op.name == "get")
    {
      J r;
      bool tot = x.tsSec() < 9000000000ll && x.tsSec() > -9000000000ll;
      r.raw("sec", big(x.tsSec())).i("nsec", x.tsNSec()).i("usec", x.tsUSec());
      if (tot) { r.raw("ms", big(x.toMSec())).raw("us", big(x.toUSec())).raw("ns", big(x.toNSec())); }
      parts(r, x);
      j.b("tot", tot).raw("r", r.str());
    }
    else if (op.name == "stamp")
    {
      boost::posix_time::ptime p(boost::gregorian::date(1970, 1, 1), boost::posix_time::seconds(s) + boost::posix_time::time_duration(0, 0, 0, n / 1000));
      if (how == "ctor") { t = TimeStamp(uint64_t(s), uint32_t(n)); }
      else if (how == "timespec") { t = TimeStamp(ts); }
      else if (how == "time_t") { t = TimeStamp(time_t(s)); }
      else if (how == "ptime") { t = TimeStamp(p); }
      else if (how == "ptime=") { t = p; }
      else { _exit(71); }
      j.raw("t", jt());
    }
    else if (op.name == "now" || op.name == "future")
    {
      g_now.tv_sec = s;
      g_now.tv_usec = n / 1000;
      if (op.name == "future") { t = TimeStamp::futureMSec(op.i("ms")); j.raw("ms", big(op.i("ms"))); }
      else if (how == "0") { t = TimeStamp::now(); }
      else { t.fromNow(); }
      j.raw("t", jt());
    }
    else if (op.name == "tadd") { if (how == "0") { t += x; } else if (how == "1") { t = t + x; } else { t = x + t; } j.raw("t", jt()); }
    else if (op.name == "tsub") { if (how == "0") { t -= x; } else { t = t - x; } j.raw("t", jt()); }
    else if (op.name == "tdiff")
    {
      TimeStamp u = TimeStamp(ts);
      if (op.b("rev")) { x = u - t; } else { x = t - u; }
      j.b("rev", op.b("rev")).raw("x", jx());
    }
    else if (op.name == "tcmp")
    {
      TimeStamp u = TimeStamp(ts);
      j.raw("r", cmp(t, u)).raw("b", cmp(u, t)).b("max", t <= TimeStamp::maxTime() && u < TimeStamp::maxTime());
    }
    else if (op.name == "tget")
    {
      J r;
      r.raw("sec", big(int64_t(t.tsSec()))).i("nsec", int32_t(t.tsNSec())).i("usec", int32_t(t.tsUSec()));
      parts(r, t);
      j.raw("r", r.str());
    }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
