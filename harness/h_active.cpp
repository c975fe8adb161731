// icl_core::thread::ActiveObject under the controlled scheduler.
#include "conc_time.h"
#include "conc_log.h"
#include <unistd.h>
#include "icl_core_thread/ActiveObject.h"
#include "icl_core_thread/ActiveOperation.h"

using namespace conc;

struct Obj;
static Obj *obj;
static int body_no;
static void say(const char *ev, int64_t id);

struct Work : icl_core::thread::ActiveOperation
{
  int64_t id; int kind; int64_t us; bool done;
  Work(int64_t i, int k, int64_t u) : id(i), kind(k), us(u), done(false) {}
  ~Work() { sched::Off off; say(done ? "del" : "drop", id); }
  void invoke();
};

struct Obj : icl_core::thread::ActiveObject
{
  bool own;
  Obj(bool o) : ActiveObject("active"), own(o) {}
  // As classes derived from a thread do - unless it is left to the base class
  ~Obj() { if (own) { stop(); join(); } }
  void add(Work *w) { queue(w); }
  void onThreadStart() { sched::Off off; say("start", 0); }
  void onThreadStop() { sched::Off off; say("stop", 0); }
};

static bool gone;
static void say(const char *ev, int64_t id)
{
  J j("act");
  // nothing runs any more while an object is being destroyed
  j.s("ev", ev).i("id", id).b("own", !gone && obj->threadSelf());
  log(j);
}

static void queue(int th, int64_t id, int kind, int64_t us)
{
  sched::Off off;
  Work *w = new Work(id, kind, us);
  DO(obj->add(w));
}

void Work::invoke()
{
  sched::Off off;
  say("exec", id);
  if (kind == 2) { usleep(us); }
  else if (kind == 3)
  {
    J c("call");
    c.i("th", body_no).s("f", "queue").i("dl", id + 10000);
    log(c);
    queue(body_no, id + 10000, 1, 0);
    J r("ret");
    r.i("th", body_no).s("f", "queue").b("res", true);
    log(r);
  }
  done = true;
  say("done", id);
}

struct H : Harness
{
  Obj *m;
  bool det, up;
  int64_t next;
  void reset(const Op& o, J&)
  {
    det = o.raw("mode") == "det";
    next = 0;
    up = gone = false;
    body_no = int(o.i("th")) + 1;
    obj = m = new Obj(!det);
  }
  bool applicable(int, const Op& o) { return m != NULL && !(o.raw("f") == "start" && up); }
  void call(int, const Op& o, J& j) { j.i("dl", o.raw("f") == "queue" ? ++next : 0); }
  void exec(int th, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    bool ok = true;
    if (f == "start") { up = true; ok = DO(m->start()); }
    else if (f == "stop") { DO(m->stop()); }
    else if (f == "join") { DO(m->join()); up = false; }
    else if (f == "queue") { queue(th, next, int(o.i("k")), o.has("us") ? o.i("us") : 10); }
    else if (f == "del") { Obj *x = m; m = NULL; DO(delete x); gone = true; }
    else { _exit(71); }
    r.b("res", ok);
  }
  void finish(int th)
  {
    if (!m || (!det && th != 1)) { return; }
    one(th, "stop");
  }
  void one(int th, const char *f) { Op o; o.name = "do"; o.kv["f"] = f; perform(th, o); }
  void settle() { if (m) { one(0, "stop"); one(0, "del"); } }
  void fini()
  {
    J j("left");
    j.i("n", sched::unjoined());
    log(j);
  }
};

int main(int argc, char **argv) { no_messages(); H h; return conc::main(argc, argv, h); }
