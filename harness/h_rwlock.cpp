// icl_core::thread::RWLock under the controlled scheduler.
#include "conc_time.h"
#include "icl_core_thread/RWLock.h"

using namespace conc;

struct H : Harness
{
  icl_core::thread::RWLock *m;
  struct Own { int r, w; };
  std::vector<Own> own;
  void reset(const Op& o, J&) { m = new icl_core::thread::RWLock; own.assign(o.i("th") + 1, Own()); }
  bool applicable(int th, const Op& o)
  {
    std::string f = o.raw("f");
    if (f == "unlock") { return own[th].r + own[th].w > 0; }
    if (f == "tryr" || f == "tryw") { return true; }
    return own[th].w == 0 && (f != "wlock" || own[th].r == 0);
  }
  void call(int, const Op& o, J& j) { j.i("dl", deadline(o)); }
  void exec(int th, const Op& o, J& r)
  {
    std::string f = o.raw("f");
    const int64_t us = o.has("us") ? o.i("us") : 0;
    bool ok = true;
    if (f == "rlock") { ok = DO(m->readLock()); }
    else if (f == "tryr") { ok = DO(m->tryReadLock()); }
    else if (f == "rabs") { ok = DO(m->readLock(at(us))); }
    else if (f == "rrel") { ok = DO(m->readLock(span(us))); }
    else if (f == "wlock") { ok = DO(m->writeLock()); }
    else if (f == "tryw") { ok = DO(m->tryWriteLock()); }
    else if (f == "wabs") { ok = DO(m->writeLock(at(us))); }
    else if (f == "wrel") { ok = DO(m->writeLock(span(us))); }
    else { if (own[th].w) { --own[th].w; } else { --own[th].r; } DO(m->unlock()); }
    if (ok && f != "unlock") { if (f[0] == 'w' || f == "tryw") { ++own[th].w; } else { ++own[th].r; } }
    r.b("res", ok);
  }
  void finish(int th)
  {
    Op o;
    o.name = "do";
    o.kv["f"] = "unlock";
    while (own[th].r + own[th].w > 0) { perform(th, o); }
  }
  void fini() { delete m; }
};

int main(int argc, char **argv) { H h; return conc::main(argc, argv, h); }
