// Messages and the lines that are made of them: one log stream with one output, a clock of our own, several threads taking turns.
#include "vh.h"
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LogOutputStream.h"
#include <cmath>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
using namespace vh;
namespace lg = icl_core::logging;

static bool g_fake;
static struct timespec g_now;
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept
{
  if (g_fake && c == CLOCK_REALTIME) { *ts = g_now; return 0; }
  return int(syscall(SYS_clock_gettime, c, ts));
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

struct Rec : lg::LogOutputStream
{
  std::vector<std::string> lines;
  Rec() : LogOutputStream("rec", "/none", lg::eLL_TRACE, false) {}
  virtual void pushImpl(const icl_core::String& line) { lines.push_back(line); }
};
struct Stream : lg::LogStream
{
  explicit Stream(const std::string& n) : LogStream(n, lg::eLL_TRACE) {}
};

//! A thread that does what it is told.
struct Hand
{
  std::mutex m;
  std::condition_variable c;
  std::function<void()> job;
  bool stop;
  std::thread t;
  Hand() : stop(false), t([this] { work(); }) {}
  ~Hand() { { std::lock_guard<std::mutex> g(m); stop = true; } c.notify_all(); t.join(); }
  void work()
  {
    std::unique_lock<std::mutex> g(m);
    for (;;)
    {
      c.wait(g, [this] { return stop || job; });
      if (stop) { return; }
      job();
      job = nullptr;
      c.notify_all();
    }
  }
  void run(std::function<void()> f)
  {
    std::unique_lock<std::mutex> g(m);
    job = f;
    c.notify_all();
    c.wait(g, [this] { return !job; });
  }
};

struct H
{
  Rec *rec;
  Stream *stream;
  std::vector<Hand *> hands;
  H() : rec(NULL), stream(NULL) { lg::initialize(); g_fake = true; for (int i = 0; i < 8; ++i) { hands.push_back(new Hand); } }
  void put(lg::ThreadStream& ts, const Op& o, J& j)
  {
    std::string k = o.raw("k");
    j.s("k", k);
    if (k == "str") { std::string v = o.bytes("v"); ts << v; j.bytes("v", v); }
    else if (k == "cstr") { std::string v = o.bytes("v"); ts << v.c_str(); j.bytes("v", v); }
    else if (k == "raw") { std::string v = o.bytes("v"); ts.write(v.data(), v.size()); j.bytes("v", v); }
    else if (k == "bool") { ts << o.b("v"); j.b("v", o.b("v")); }
    else if (k == "ptr") { ts << reinterpret_cast<void *>(uintptr_t(o.i("v"))); j.i("v", o.i("v")); }
    else if (k == "span") { ts << icl_core::TimeSpan(o.i("s"), int32_t(o.i("n"))); j.raw("s", big(o.i("s"))).i("n", o.i("n")); }
    else if (k == "stamp") { ts << icl_core::TimeStamp(uint64_t(o.i("s")), uint32_t(o.i("n"))); j.raw("s", big(o.i("s"))).i("n", o.i("n")); }
    else if (k == "dbl")
    {
      // m * 2^x with an integer m
      double v = std::ldexp(double(o.i("m")), int(o.i("x")));
      if (o.b("neg")) { v = -v; }
      ts << v;
      int x = 0;
      double a = std::frexp(std::fabs(v), &x);
      int64_t m = int64_t(std::ldexp(a, 53));
      x -= 53;
      while (m && m % 2 == 0) { m /= 2; ++x; }
      j.b("neg", std::signbit(v)).raw("m", big(m)).i("x", m ? x : 0);
    }
    else if (k == "u64") { uint64_t v = strtoull(o.raw("v").c_str(), NULL, 10); ts << v; j.raw("v", big((unsigned __int128)v)); }
    else
    {
      int64_t v = o.i("v");
      if (k == "u8") { ts << uint8_t(v); }
      else if (k == "i8") { ts << int8_t(v); }
      else if (k == "u16") { ts << uint16_t(v); }
      else if (k == "i16") { ts << int16_t(v); }
      else if (k == "u32") { ts << uint32_t(v); }
      else if (k == "i32") { ts << int32_t(v); }
      else { ts << v; }
      j.raw("v", big(v));
    }
  }
  void on(const Op& o, J& j)
  {
    lg::LogLevel l = lg::LogLevel(o.i("l"));
    lg::ThreadStream& ts = stream->threadStream(l);
    ts.setLineLogLevel(l);
    j.i("th", o.i("th")).i("l", l);
    if (o.name == "flush" || o.name == "endl" || o.name == "printf") { j.bytes("s", stream->name()); }
    if (o.name == "note")
    {
      std::string k = o.raw("k"), v = o.bytes("v");
      if (k == "n") { ts.setLine(o.i("v")); j.s("k", k).i("v", o.i("v")); return; }
      j.s("k", k).bytes("v", v);
      if (k == "c") { ts.setClassname(v.c_str()); }
      else if (k == "o") { ts.setObjectname(v.c_str()); }
      else if (k == "d") { ts.setFunction(v.c_str()); }
      else { ts.setFilename(v.c_str()); }
    }
    else if (o.name == "put") { put(ts, o, j); }
    else if (o.name == "flush") { ts << lg::flush; }
    else if (o.name == "endl") { ts << lg::endl; }
    else if (o.name == "printf")
    {
      std::string v = o.bytes("v"), k = o.raw("k");
      j.s("k", k).bytes("v", v).i("n", o.has("n") ? o.i("n") : 0);
      if (k == "s") { ts.printf("%s", v.c_str()); } else { ts.printf("%d:%s%%", int(o.i("n")), v.c_str()); }
    }
    else { _exit(71); }
  }
  void operator()(const Op& o)
  {
    J j(o.name.c_str());
    if (o.name == "new")
    {
      delete stream;
      delete rec;
      std::string n = o.has("s") ? o.bytes("s") : "stream";
      rec = new Rec;
      stream = new Stream(n);
      stream->addOutputStream(rec);
      g_now.tv_sec = 0;
      g_now.tv_nsec = 0;
      rec->lines.clear();
    }
    else if (o.name == "fmt") { std::string f = o.bytes("f"); rec->changeLogFormat(f.c_str()); j.bytes("f", f); }
    else if (o.name == "tf") { std::string *f = new std::string(o.bytes("f")); rec->changeTimeFormat(f->c_str()); j.bytes("f", *f); }
    else if (o.name == "clock") { g_now.tv_sec = o.i("s"); g_now.tv_nsec = o.i("n"); j.raw("s", big(o.i("s"))).i("n", o.i("n")); }
    else if (o.name == "push")
    {
      std::string s = o.bytes("s"), c = o.bytes("c"), b = o.bytes("o"), d = o.bytes("d"), f = o.bytes("f"), t = o.bytes("t");
      rec->push(lg::LogLevel(o.i("l")), s.c_str(), f.c_str(), int(o.i("n")), c.c_str(), b.c_str(), d.c_str(), t.c_str());
      j.i("l", o.i("l")).bytes("s", s).bytes("c", c).bytes("o", b).bytes("d", d).bytes("f", f).i("n", o.i("n")).bytes("t", t);
    }
    else { hands.at(o.i("th"))->run([&] { on(o, j); }); }
    std::vector<std::string> got;
    for (size_t i = 0; i < rec->lines.size(); ++i) { got.push_back(jbytes(rec->lines[i])); }
    rec->lines.clear();
    j.raw("got", jlist(got));
    trace().emit(j);
  }
};

int main(int argc, char **argv) { setenv("TZ", "UTC", 1); tzset(); H h; int rc = drive(argc, argv, h); for (size_t i = 0; i < h.hands.size(); ++i) { delete h.hands[i]; } fflush(NULL); _exit(rc); }
