// icl_core::thread::Semaphore under the controlled scheduler.
#include "conc_time.h"
#include "icl_core_thread/Sem.h"

using namespace conc;

struct H : Harness
{
  icl_core::thread::Semaphore *m;
  void reset(const Op& o, J& j) { m = new icl_core::thread::Semaphore(o.i("c")); j.i("c", o.i("c")); }
  void call(int, const Op& o, J& j) { j.i("dl", deadline(o)); }
  void exec(int, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    const int64_t us = o.has("us") ? o.i("us") : 0;
    bool ok = true;
    if (f == "wait") { ok = DO(m->wait()); }
    else if (f == "try") { ok = DO(m->tryWait()); }
    else if (f == "abs") { ok = DO(m->wait(at(us))); }
    else if (f == "rel") { ok = DO(m->wait(span(us))); }
    else { DO(m->post()); }
    last = ok;
    r.b("res", ok);
  }
  bool last;
  // Lets everybody through and takes what is left.
  void settle()
  {
    Op o;
    o.name = "do";
    o.kv["f"] = "post";
    while (sched::live()) { perform(0, o); sched::run_all(); if (++n > 100) { return; } }
    o.kv["f"] = "try";
    n = 0;
    do { perform(0, o); } while (last && ++n < 100);
    n = 0;
  }
  int n;
  H() : n(0) {}
  void fini() { delete m; }
};

int main(int argc, char **argv) { H h; return conc::main(argc, argv, h); }
