// icl_core::dispatch::PeriodicDispatchThread under the controlled scheduler.
#include "conc_time.h"
#include "conc_log.h"
#include <unistd.h>
#include <boost/bind.hpp>
#include "icl_core_dispatch/CallbackOperation.h"
#include "icl_core_dispatch/PeriodicDispatchThread.h"

using namespace conc;
using namespace icl_core::dispatch;

struct H;
static PeriodicDispatchThread *obj;
static std::vector<Operation *> made;
static int64_t next_id;

static void say(const char *ev, int64_t id)
{
  J j("act");
  j.s("ev", ev).i("id", id).b("own", obj->threadSelf());
  log(j);
}
static void add(int64_t id, int kind, int64_t us);
static void work(int64_t id, int kind, int64_t us, bool *added)
{
  sched::Off off;
  say("exec", id);
  { sched::On on; sched::point(); }
  if (kind == 2) { usleep(us); }
  else if (kind == 3) { say("stop", id); obj->stop(); }
  else if (kind == 4 && !*added)
  {
    *added = true;
    int64_t n = ++next_id;
    say("add", n);
    add(n, 1, 0);
  }
  say("done", id);
}
struct Own : Operation
{
  int64_t id; int kind; int64_t us; bool added;
  Own(int64_t i, int k, int64_t u) : id(i), kind(k), us(u), added(false) {}
  virtual void execute() { work(id, kind, us, &added); }
};
static void add(int64_t id, int kind, int64_t us)
{
  sched::Off off;
  Operation *op = id % 2 ? static_cast<Operation *>(new Own(id, kind, us))
                         : new CallbackOperation(boost::bind(&work, id, kind, us, new bool(false)));
  made.push_back(op);
  DO(obj->addOperation(op));
}

struct H : Harness
{
  bool det, up, gone;
  void reset(const Op& o, J& j)
  {
    det = o.raw("mode") == "det";
    next_id = 0;
    up = gone = false;
    int64_t p = o.i("p");
    obj = new PeriodicDispatchThread("dispatch", icl_core::TimeSpan(p / 1000000, p % 1000000 * 1000));
    j.i("p", p);
  }
  bool applicable(int, const Op& o) { return !gone && !((o.raw("f") == "start" || o.raw("f") == "add") && up); }
  void call(int, const Op& o, J& j) { j.i("dl", o.raw("f") == "add" ? ++next_id : 0); }
  void exec(int th, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    bool ok = true;
    if (f == "start") { up = true; ok = DO(obj->start()); }
    else if (f == "stop") { DO(obj->stop()); }
    else if (f == "join") { DO(obj->join()); up = false; }
    else if (f == "add") { add(next_id, int(o.i("k")), o.has("us") ? o.i("us") : 100); }
    else if (f == "del") { gone = true; DO(delete obj); }
    else { _exit(71); }
    r.b("res", ok);
  }
  void one(int th, const char *f) { Op o; o.name = "do"; o.kv["f"] = f; perform(th, o); }
  void finish(int th) { if (!gone && (det || th == 1)) { one(th, "stop"); } }
  void settle() { if (!gone) { one(0, "del"); } }
  void fini()
  {
    for (size_t i = 0; i < made.size(); ++i) { delete made[i]; }
    made.clear();
    J j("left");
    j.i("n", sched::unjoined()).i("timers", sched::open_timers());
    log(j);
  }
};

int main(int argc, char **argv) { no_messages(); H h; return conc::main(argc, argv, h); }
