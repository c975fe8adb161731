// icl_core::thread::Thread under the controlled scheduler.
#include "conc_time.h"
#include "conc_log.h"
#include <unistd.h>
#include "icl_core_thread/Thread.h"

using namespace conc;

struct Body : icl_core::thread::Thread
{
  std::string mode;
  unsigned nap;      // microseconds between two looks of a looping body
  int *alive;        // bodies that may still run
  Body(const std::string& m, int *a) : Thread("body"), mode(m), alive(a) {}
  // As classes derived from a thread do - unless the body has ended or stays inside run(), which is for the base class to handle.
  bool own;
  ~Body() { if (own && *alive > 0) { stop(); join(); } }
  static void say(const char *ev, bool v) { sched::Off off; J j("body"); j.s("ev", ev).b("v", v); log(j); }
  struct Guard { int *alive; ~Guard() { --*alive; say("end", false); } };
  void run()
  {
    Guard g = { alive };
    say("begin", true);
    { sched::Off off; say("self", threadSelf()); }
    if (mode == "loop")
    {
      bool first = true;
      for (;;)
      {
        bool go;
        {
          sched::Off off;        // asked and told in one step
          go = execute();
          if (first || !go) { say("exec", go); }
          first = false;
        }
        if (!go) { break; }
        usleep(nap);
      }
    }
    else if (mode == "naps") { for (int i = 0; i < 3; ++i) { usleep(7); } }
  }
};

struct H : Harness
{
  Body *m;
  int alive;
  bool last, det;
  void reset(const Op& o, J&) { det = o.raw("mode") == "det"; alive = 0; m = new Body(o.raw("b"), &alive); m->nap = o.has("nap") ? unsigned(o.i("nap")) : 10; m->own = !det; }
  bool applicable(int, const Op&) { return m != NULL; }
  void call(int, const Op& o, J& j)
  {
    std::string f = o.raw("f");
    j.i("dl", f == "start" ? o.i("us") : deadline(o));
  }
  void exec(int, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    const int64_t us = o.has("us") ? o.i("us") : 0;
    bool ok = true;
    if (f == "start")
    {
      ++alive;          // as soon as its body may run
      sched::fail_create(us);
      ok = DO(m->start());
      sched::fail_create(0);
      if (!ok && us) { --alive; }
    }
    else if (f == "wait") { ok = DO(m->wait()); }
    else if (f == "abs") { ok = DO(m->wait(at(us))); }
    else if (f == "rel") { ok = DO(m->wait(span(us))); }
    else if (f == "join") { DO(m->join()); }
    else if (f == "running") { ok = DO(m->running()); }
    else if (f == "self") { ok = DO(m->threadSelf()); }
    else if (f == "stop") { DO(m->stop()); }
    else if (f == "cancel") { DO(m->cancel()); }
    else if (f == "del") { Body *x = m; m = NULL; DO(delete x); }
    else { _exit(71); }
    last = ok;
    r.b("res", ok);
  }
  // Nobody leaves the body looping
  void finish(int th)
  {
    if (!m || (!det && th != 1)) { return; }
    Op o;
    o.name = "do";
    o.kv["f"] = "stop";
    perform(th, o);
  }
  void settle()
  {
    if (!m) { return; }
    Op o;
    o.name = "do";
    for (const char *f : { "stop", "del" }) { o.kv["f"] = f; perform(0, o); }
  }
  void fini()
  {
    J j("left");
    j.i("n", sched::unjoined());
    log(j);
  }
};

int main(int argc, char **argv) { no_messages(); H h; return conc::main(argc, argv, h); }
