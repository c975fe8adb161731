// icl_core::thread::PeriodicThread under the controlled scheduler. Thread 1 of the script is the body: what it is to do is
// handed over to the thread of the object, which does it inside run().
#include "conc_time.h"
#include "conc_log.h"
#include "icl_core_thread/PeriodicThread.h"

using namespace conc;

static int64_t units(const icl_core::TimeSpan& s) { return (int64_t(s.tsSec()) * 1000000000 + s.tsNSec()) / unit(); }
static icl_core::TimeSpan span_of(int64_t u) { return icl_core::TimeSpan(u * unit() / 1000000000, u * unit() % 1000000000); }

struct Box { bool alive, over, quit, have, done; Op o; bool res; int64_t v; };
static Box box;

struct Body : icl_core::thread::PeriodicThread
{
  bool own;
  Body(int64_t us, bool w) : PeriodicThread("body", span_of(us)), own(w) {}
  ~Body() { if (own) { stop(); join(); } }
  void run()
  {
    sched::Off off;
    Box& b = box;          // all that is used of the environment: an object of the base class may be destroyed meanwhile
    b.alive = true;
    sched::wake(&b);
    for (;;)
    {
      if (b.have)
      {
        b.have = false;
        std::string f = b.o.raw("f");
        b.res = true;
        if (f == "wait") { DO(waitPeriod()); }
        else if (f == "loop") { do { DO(waitPeriod()); } while (execute()); }
        else if (f == "setp") { b.res = DO(setPeriod(span_of(b.o.i("us")))); }
        else if (f == "period") { icl_core::TimeSpan s = DO(period()); b.v = units(s); }
        b.done = true;
        sched::wake(&b);
      }
      else if (b.quit) { break; }
      else { sched::park(&b); }
    }
    b.alive = false;
    sched::wake(&b);
  }
};

struct H : Harness
{
  Body *m;
  bool det, gone;
  void reset(const Op& o, J& j)
  {
    det = o.raw("mode") == "det";
    gone = false;
    box = Box();
    m = new Body(o.i("p"), !det);
    j.i("p", o.i("p"));
  }
  bool applicable(int th, const Op& o)
  {
    if (th == 1)
    {
      while (!det && !box.alive && !box.over) { sched::park(&box); }
      return box.alive && !box.have;
    }
    return m != NULL;
  }
  void call(int, const Op& o, J& j) { j.i("dl", o.raw("f") == "setp" ? o.i("us") : 0); }
  void exec(int th, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    bool ok = true;
    if (th == 1)
    {
      box.o = o;
      box.done = false;
      box.have = true;
      sched::wake(&box);
      while (!box.done) { sched::park(&box); }
      ok = box.res;
      r.i("v", box.v);
    }
    else
    {
      if (f == "start") { box.quit = false; ok = DO(m->start()); while (!box.alive) { sched::park(&box); } }
      else if (f == "stop") { quit(); DO(m->stop()); DO(m->join()); }
      else if (f == "setp") { ok = DO(m->setPeriod(span_of(o.i("us")))); }
      else if (f == "period") { icl_core::TimeSpan s = DO(m->period()); r.i("v", units(s)); }
      else if (f == "jump") { sched::jump_realtime(o.has("us") && o.i("us") ? o.i("us") : 3600000000LL); }
      else if (f == "del") { Body *x = m; m = NULL; quit(); DO(delete x); }
      else { _exit(71); }
    }
    r.b("res", ok);
  }
  void quit() { box.quit = true; sched::wake(&box); }
  void finish(int th)
  {
    if (th != 2) { return; }
    if (m && det)     // nobody leaves the body looping
    {
      Op o;
      o.name = "do";
      o.kv["f"] = "stop";
      perform(th, o);
    }
    box.over = true;
    sched::wake(&box);
  }
  void settle()
  {
    if (!m) { return; }
    Op o;
    o.name = "do";
    o.kv["f"] = "del";
    perform(0, o);
  }
  void fini()
  {
    J j("left");
    j.i("n", sched::unjoined()).i("timers", sched::open_timers());
    log(j);
  }
};

int main(int argc, char **argv) { no_messages(); H h; return conc::main(argc, argv, h); }
