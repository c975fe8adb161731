// The performance monitor under a clock of its own; what it prints is recorded.
#define IC_PERFORMANCE_MONITOR
#include "vfork.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_performance_monitor/PerformanceMonitor.h"
#include <cmath>
#include <sys/syscall.h>
#include <sys/time.h>
using namespace vh;
using icl_core::perf_mon::PerformanceMonitor;
namespace lg = icl_core::logging;

static bool g_fake;
static struct timespec g_now;
static int g_step;   //!< how far the clock advances when it is read
static void advance(long long d)
{
  long long ns = g_now.tv_nsec + d * 125000LL;
  g_now.tv_sec += ns / 1000000000;
  g_now.tv_nsec = ns % 1000000000;
}
static long long units() { return (g_now.tv_sec - 1000) * 8000LL + g_now.tv_nsec / 125000; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept
{
  if (g_fake && c == CLOCK_REALTIME) { *ts = g_now; advance(g_step); return 0; }
  return int(syscall(SYS_clock_gettime, c, ts));
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

struct Rec : lg::LogOutputStream
{
  std::vector<std::string> texts;
  Rec() : LogOutputStream("rec", "/none", lg::eLL_TRACE, false) { changeLogFormat("~E"); }
  virtual void pushImpl(const icl_core::String& line) { texts.push_back(line); }
};

//! A line: its numbers are replaced by '#' and given as a mantissa of six digits and an exponent.
static std::string jline(const std::string& s)
{
  std::string t;
  std::vector<std::string> v;
  for (size_t i = 0; i < s.size(); )
  {
    size_t d = i + (s[i] == '-' ? 1 : 0);
    if (d >= s.size() || !isdigit(s[d])) { t += s[i++]; continue; }
    std::string digits;
    int k = 0;
    bool point = false;
    for (; d < s.size() && (isdigit(s[d]) || (s[d] == '.' && !point && d + 1 < s.size() && isdigit(s[d + 1]))); ++d)
    {
      if (s[d] == '.') { point = true; continue; }
      if (!(digits.empty() && s[d] == '0')) { digits += s[d]; }
      k += point;
    }
    while (!digits.empty() && digits.size() < 6) { digits += '0'; ++k; }
    if (digits.size() > 6) { digits = "7"; k = 0; }  // more digits than are printed
    long m = digits.empty() ? 0 : atol(digits.c_str());
    v.push_back(J().i("m", s[i] == '-' ? -m : m).i("k", k).str());
    t += '#';
    i = d;
  }
  return "{\"t\":" + quote(t) + ",\"v\":" + jlist(v) + "}";
}
static std::string jout(std::vector<std::string>& texts)
{
  std::vector<std::string> ms;
  for (size_t i = 0; i < texts.size(); ++i)
  {
    std::vector<std::string> ls;
    std::string s = texts[i], line;
    if (!s.empty() && s[s.size() - 1] == '\n') { s.erase(s.size() - 1); }   // the end of the message
    std::stringstream in(s);
    while (std::getline(in, line)) { ls.push_back(jline(line)); }
    ms.push_back(jlist(ls));
  }
  texts.clear();
  return jlist(ms);
}

static void episode(const std::vector<Op>& ops)
{
  Capture cap;
  lg::LoggingManager::instance().initialize();
  lg::LogStream& stream = Performance::instance();
  Rec rec;
  stream.addOutputStream(&rec);
  PerformanceMonitor *m = PerformanceMonitor::getInstance();
  g_now.tv_sec = 1000;
  g_fake = true;
  for (size_t k = 0; k < ops.size(); ++k)
  {
    const Op& o = ops[k];
    const std::string p = o.has("p") ? o.s("p") : "", n = o.has("n") ? o.s("n") : "", t = o.has("t") ? o.s("t") : "";
    const double v = o.has("v") ? o.i("v") / 8.0 : 0;
    const bool b = o.has("b") && o.b("b"), mac = o.has("m") && o.b("m");
    J j(o.name.c_str());
    const long long from = units();
    if (o.has("p")) { j.s("p", p); }
    if (o.has("n")) { j.s("n", n); }
    if (o.has("t")) { j.s("t", t); }
    if (o.has("v")) { j.i("v", o.i("v")); }
    if (o.has("b")) { j.b("b", b); }
    if (o.name == "new")
    {
      std::vector<std::string> q;
      std::stringstream in(o.s("names"));
      q.push_back(quote(""));
      for (std::string x; std::getline(in, x, ','); ) { q.push_back(quote(x)); }
      j.raw("names", jlist(q));
      g_step = int(o.i("step"));
    }
    else if (o.name == "init") { if (mac) { PERF_MON_INITIALIZE(o.i("k"), 5) } else { PerformanceMonitor::initialize(uint32_t(o.i("k")), 20); } }
    else if (o.name == "start") { if (mac) { PERF_MON_START(t) } else { PerformanceMonitor::start(t); } }
    else if (o.name == "meas" || o.name == "lap")
    {
      double r = o.name == "meas" ? PerformanceMonitor::measurement(t, n, p) : PerformanceMonitor::startStop(t, n, p);
      j.i("r", r * 8 == std::floor(r * 8) && std::fabs(r) < 1e7 ? (long long)(r * 8) : -77777777);
    }
    else if (o.name == "data") { if (mac) { PERF_MON_ADD_DATA_P(n, v, p) } else { PerformanceMonitor::addData(n, v, p); } }
    else if (o.name == "non") { if (mac) { PERF_MON_ADD_DATA_NONTIME_P(n, v, p) } else { PerformanceMonitor::addNonTimeData(n, v, p); } }
    else if (o.name == "static") { if (mac) { PERF_MON_ADD_STATIC_DATA_P(n, v, p) } else { PerformanceMonitor::addStaticData(n, v, p); } }
    else if (o.name == "enable") { if (mac) { PERF_MON_ENABLE(p) } else { PerformanceMonitor::enablePrefix(p); } }
    else if (o.name == "disable") { if (mac) { PERF_MON_DISABLE(p) } else { PerformanceMonitor::disablePrefix(p); } }
    else if (o.name == "all") { if (mac) { PERF_MON_ENABLE_ALL(b) } else { PerformanceMonitor::enableAll(b); } }
    else if (o.name == "on") { m->m_enabled = b; }
    else if (o.name == "tell") { m->m_print_stop = b; }
    else if (o.name == "tick")
    {
      j.i("d", o.i("d"));
      advance(o.i("d"));
    }
    else if (o.name == "sum") { if (mac) { PERF_MON_SUMMARY_INFO(p, n) } else { PerformanceMonitor::printSummary(p, n); } }
    else if (o.name == "sumpre") { if (mac) { PERF_MON_SUMMARY_PREFIX_INFO(p) } else { PerformanceMonitor::printSummaryFromPrefix(p); } }
    else if (o.name == "sumall") { if (mac) { PERF_MON_SUMMARY_ALL_INFO } else { PerformanceMonitor::printSummaryAll(); } }
    else { _exit(71); }
    j.i("from", from).i("till", units()).raw("out", jout(rec.texts));
    trace().emit(j);
  }
  g_fake = false;
  fflush(NULL);
  _exit(0);
}

int main(int argc, char **argv) { return drive_forked(argc, argv, episode); }
