// Scoped locks and spin locks under the controlled scheduler.
#include "conc_time.h"
#include "icl_core_thread/Mutex.h"
#include "icl_core_thread/RWLock.h"
#include "icl_core_thread/ScopedMutexLock.h"
#include "icl_core_thread/ScopedRWLock.h"
#include "icl_core_thread/ScopedSpinLock.h"

using namespace conc;
using namespace icl_core::thread;

struct Scope
{
  ScopedMutexLock *m;
  ScopedRWLock *w;
  ScopedSpinLock *s;
  char k;
  bool ok;
};

struct H : Harness
{
  Mutex *m;
  RWLock *w;
  SpinLock *s;
  struct Own { std::vector<Scope> sc; int m, r, w, s, turn; Own() : m(0), r(0), w(0), s(0), turn(0) {} };
  std::vector<Own> own;
  int has(int th, char k)
  {
    const Own& o = own[th];
    int n = k == 'm' ? o.m : k == 'r' ? o.r : k == 'w' ? o.w : o.s;
    for (size_t i = 0; i < o.sc.size(); ++i) { n += o.sc[i].ok && o.sc[i].k == k; }
    return n;
  }
  void reset(const Op& o, J&)
  {
    m = new Mutex;
    w = new RWLock;
    s = new SpinLock;
    own.assign(o.i("th") + 1, Own());
  }
  bool applicable(int th, const Op& o)
  {
    std::string f = o.raw("f");
    Own& x = own[th];
    if (f == "close" || f == "isl") { return o.i("i") >= 1 && o.i("i") <= long(x.sc.size()); }
    bool rw = has(th, 'r') + has(th, 'w') > 0;
    if (f == "sm") { return has(th, 'm') || (!rw && !has(th, 's')); }
    if (f == "sr") { return !has(th, 's'); }
    if (f == "sw") { return !has(th, 's') && !has(th, 'r'); }
    if (f == "ss" || f == "spin") { return !has(th, 's'); }
    if (f == "unm") { return x.m; }
    if (f == "unr") { return x.r; }
    if (f == "unw") { return x.w; }
    if (f == "unspin") { return x.s; }
    return true;
  }
  void call(int, const Op& o, J& j) { j.i("dl", o.has("i") ? o.i("i") : 0); }
  void exec(int th, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    Own& x = own[th];
    bool ok = true;
    if (f == "sm" || f == "sr" || f == "sw" || f == "ss")
    {
      // without force where it has to fail; otherwise both
      bool force = ++x.turn % 2;
      Scope n = { NULL, NULL, NULL, f[1], true };
      if (f == "sm") { n.m = DO(new ScopedMutexLock(*m, force)); n.ok = n.m->isLocked(); }
      else if (f == "ss") { n.s = DO(new ScopedSpinLock(*s)); n.ok = n.s->isLocked(); }
      else
      {
        if (has(th, 'w')) { force = false; }
        bool rd = f == "sr";
        n.w = DO(new ScopedRWLock(*w, rd ? ScopedRWLock::eLM_READ_LOCK : ScopedRWLock::eLM_WRITE_LOCK, force));
        n.ok = n.w->isLocked();
      }
      ok = n.ok;
      x.sc.push_back(n);
    }
    else if (f == "close")
    {
      Scope n = x.sc[o.i("i") - 1];
      x.sc.erase(x.sc.begin() + (o.i("i") - 1));
      if (n.m) { DO(delete n.m); }
      if (n.w) { DO(delete n.w); }
      if (n.s) { DO(delete n.s); }
    }
    else if (f == "isl")
    {
      Scope& n = x.sc[o.i("i") - 1];
      ok = n.m ? n.m->isLocked() : n.w ? n.w->isLocked() : n.s->isLocked();
      bool b = n.m ? bool(*n.m) : n.w ? bool(*n.w) : bool(*n.s);
      if (ok != b) { sched::log("{\"op\":\"conversion\"}"); }
    }
    else if (f == "trym") { ok = DO(m->tryLock()); x.m += ok; }
    else if (f == "tryr") { ok = DO(w->tryReadLock()); x.r += ok; }
    else if (f == "tryw") { ok = DO(w->tryWriteLock()); x.w += ok; }
    else if (f == "tryspin") { ok = DO(s->tryLock()); x.s += ok; }
    else if (f == "spin") { ok = DO(s->lock()); ++x.s; }
    else if (f == "unm") { --x.m; DO(m->unlock()); }
    else if (f == "unr") { --x.r; DO(w->unlock()); }
    else if (f == "unw") { --x.w; DO(w->unlock()); }
    else if (f == "unspin") { --x.s; DO(s->unlock()); }
    else { _exit(71); }
    r.b("res", ok);
  }
  void finish(int th)
  {
    Op o;
    o.name = "do";
    Own& x = own[th];
    o.kv["i"] = "1";
    for (;;)
    {
      if (x.sc.size()) { o.kv["f"] = "close"; }
      else if (x.m) { o.kv["f"] = "unm"; }
      else if (x.r) { o.kv["f"] = "unr"; }
      else if (x.w) { o.kv["f"] = "unw"; }
      else if (x.s) { o.kv["f"] = "unspin"; }
      else { break; }
      perform(th, o);
    }
  }
  void fini() { delete m; delete w; delete s; }
};

int main(int argc, char **argv) { H h; return conc::main(argc, argv, h); }
