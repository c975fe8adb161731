// icl_core::thread::Mutex under the controlled scheduler.
#include "conc_time.h"
#include "icl_core_thread/Mutex.h"

using namespace conc;

struct H : Harness
{
  icl_core::thread::Mutex *m;
  std::vector<int> held;
  void reset(const Op& o, J&) { m = new icl_core::thread::Mutex; held.assign(o.i("th") + 1, 0); }
  bool applicable(int th, const Op& o) { return o.raw("f") != "unlock" || held[th] > 0; }
  void call(int, const Op& o, J& j) { j.i("dl", deadline(o)); }
  void exec(int th, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    const int64_t us = o.has("us") ? o.i("us") : 0;
    bool ok = true;
    if (f == "lock") { ok = DO(m->lock()); }
    else if (f == "try") { ok = DO(m->tryLock()); }
    else if (f == "abs") { ok = DO(m->lock(at(us))); }
    else if (f == "rel") { ok = DO(m->lock(span(us))); }
    else { --held[th]; DO(m->unlock()); }
    if (ok && f != "unlock") { ++held[th]; }
    r.b("res", ok);
  }
  void finish(int th)
  {
    Op o;
    o.name = "do";
    o.kv["f"] = "unlock";
    while (held[th] > 0) { perform(th, o); }
  }
  void fini() { delete m; }
};

int main(int argc, char **argv) { H h; return conc::main(argc, argv, h); }
