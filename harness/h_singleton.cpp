// icl_core::Singleton under the controlled scheduler: first uses by several threads.
#include "conc_time.h"
#include "conc_log.h"
#include <unistd.h>
#include <stdexcept>
#include "icl_core/Singleton.hpp"
#include "icl_core_thread/SingletonThreadingModels.h"
#include "icl_core_logging/SingletonThreadingModels.h"

using namespace conc;

static __thread int me;
static bool strict, quiet, boom;
static int64_t slow;
static int serial;
static bool revived;
static icl_core::DestructionFuncPtr destroy;

static void say(const char *ev, int no)
{
  if (quiet) { return; }
  J j("act");
  j.i("th", me).s("ev", ev).i("no", no).b("strict", strict);
  log(j);
}

template <class T> struct Life
{
  static void scheduleDestruction(icl_core::DestructionFuncPtr f) { sched::Off off; destroy = f; revived = false; say("sched", 0); }
  static void onDeadReference()
  {
    sched::Off off;
    say("dead", 0);
    if (strict && !quiet) { throw std::logic_error("dead"); }
    revived = true;
  }
};

struct Thing
{
  volatile int no, check;
  Thing()
  {
    sched::Off off;
    say("begin", 0);
    if (quiet) { no = ++serial; check = ~no; return; }
    if (slow) { int64_t us = slow; slow = 0; usleep(us); }
    if (boom) { boom = false; say("throw", 0); throw std::runtime_error("constructor"); }
    int n = ++serial;
    { sched::On on; no = n; check = ~n; }
    say("end", no);
  }
  ~Thing() { sched::Off off; say("dtor", no); no = check = -5; }
};
template <int K, int M> struct Tag : Thing {};

typedef Thing& (*Get)();
static std::vector<Get> table[4];
enum { TAGS = 96 };

template <int K> struct Fill
{
  static void go()
  {
    Fill<K - 1>::go();
    table[0].push_back(&get<icl_core::SCPCreateUsingNew, icl_core::thread::STMMultiThreadedWithMutex, 1>);
    table[1].push_back(&get<icl_core::SCPCreateUsingNew, icl_core::logging::STMMultiThreadedWithSemaphore, 2>);
    table[2].push_back(&get<icl_core::SCPCreateStatic, icl_core::thread::STMMultiThreadedWithMutex, 1>);
    table[3].push_back(&get<icl_core::SCPCreateStatic, icl_core::logging::STMMultiThreadedWithSemaphore, 2>);
  }
  template <template <class> class C, template <class> class M, int N> static Thing& get() { return icl_core::Singleton<Tag<K, N>, C, Life, M>::instance(); }
};
template <> struct Fill<0> { static void go() {} };

struct H : Harness
{
  size_t used[4];
  std::vector<int> made[4];       // what a static variable holds
  int kind;
  size_t tag;
  bool fixed;
  void prepare(bool dead)
  {
    quiet = true;
    if (destroy) { destroy(); destroy = NULL; dead = false; }
    if (dead) { table[kind][tag](); destroy(); destroy = NULL; if (kind >= 2) { made[kind][tag] = serial; } }
    quiet = false;
  }
  void reset(const Op& o, J& j)
  {
    kind = int(o.i("kind"));
    strict = o.b("strict");
    boom = revived = false;
    slow = 0;
    serial = 0;
    destroy = NULL;
    quiet = false;
    bool fresh = o.b("fresh") && used[kind] < TAGS;
    tag = fresh ? used[kind]++ : 0;
    // known to be destroyed if it is not new
    if (!fresh) { used[kind] = std::max<size_t>(used[kind], 1); prepare(true); }
    if (!fresh && kind >= 2)
    {
      quiet = true;
      made[kind][tag] = table[kind][tag]().no;
      destroy();
      destroy = NULL;
      quiet = false;
    }
    revived = false;
    serial = std::max(serial, made[kind][tag]);
    j.b("static", kind >= 2).b("dead", !fresh).i("made", kind >= 2 ? made[kind][tag] : 0);
  }
  bool applicable(int th, const Op& o)
  {
    if (o.raw("f") != "destroy") { return true; }
    for (size_t t = 0; t < slots().size(); ++t) { if (int(t) != th && slots()[t].busy) { return false; } }
    return destroy != NULL;
  }
  void call(int, const Op&, J& j) { j.i("dl", 0); }
  void exec(int th, const Op& o, J& r)
  {
    me = th;
    int no = 0;
    if (o.raw("f") == "get")
    {
      if (o.has("slow") && o.i("slow")) { slow = o.has("us") ? o.i("us") : 10; }
      if (o.has("boom") && o.i("boom")) { boom = true; }
      try
      {
        Thing& t = *DO(&table[kind][tag]());
        no = t.no == ~t.check ? t.no : -9;
        if (kind >= 2) { made[kind][tag] = no; }
      }
      catch (const std::logic_error&) { no = -2; }
      catch (const std::runtime_error&) { no = -1; }
    }
    else { icl_core::DestructionFuncPtr d = destroy; destroy = NULL; d(); }
    r.i("no", no);
  }
  void fini()
  {
    if (destroy) { quiet = true; destroy(); destroy = NULL; quiet = false; }
  }
  H() { for (int k = 0; k < 4; ++k) { used[k] = 0; made[k].assign(TAGS, 0); } }
};

int main(int argc, char **argv)
{
  Fill<TAGS>::go();
  no_messages();
  H h;
  return conc::main(argc, argv, h);
}
