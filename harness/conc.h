// Driver of the concurrent harnesses: episodes of a script run in child processes under the controlled scheduler.
//
//   new mode=det th=2 ...         controlled episode: `do th=1 f=lock ...` lets one thread perform one call and everything run
//                                 until nothing can go on without time passing; `tick us=..` lets time pass
//   new mode=free th=2 ...        `p th=1 f=...` lines are the threads' programs, `run policy=.. seed=.. n=..` runs them
#ifndef CONC_H
#define CONC_H
#include "vsched.h"
#include "vh.h"
#include <algorithm>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>

namespace conc {

using vh::J;
using vh::Op;

struct Harness
{
  virtual ~Harness() {}
  //! Creates the objects; appends their parameters to the first event.
  virtual void reset(const Op& o, J& j) = 0;
  //! Performs one call - in DO(), which is where preemption happens - and fills in its result.
  virtual void exec(int th, const Op& o, J& ret) = 0;
  //! Whether the call is to be made in this state of the calling thread.
  virtual bool applicable(int, const Op&) { return true; }
  //! Called by the thread behind its last call, still as part of its program.
  virtual void finish(int) {}
  //! Called by the controller when all programs are through (before the last event).
  virtual void settle() {}
  virtual void fini() {}
  //! Further fields of the event "call".
  virtual void call(int, const Op&, J&) {}
};

inline std::string& header() { static std::string s; return s; }
inline FILE *& out() { static FILE *f; return f; }
inline Harness *& harness() { static Harness *h; return h; }
struct Slot { std::string f; bool busy; Op cmd; bool have, quit; int key; Slot() : busy(false), have(false), quit(false), key(0) {} };
inline std::vector<Slot>& slots() { static std::vector<Slot> v; return v; }

//! Nanoseconds per unit of time in script and trace.
inline int64_t& unit() { static int64_t u = 1000; return u; }

inline void flush() { std::string t = header() + sched::events(); fwrite(t.data(), 1, t.size(), out()); fflush(out()); }

inline void log(const J& j) { sched::log(j.str()); }

//! One call with its two events.
inline void perform(int th, const Op& o)
{
  sched::point();
  sched::Off whole;
  Slot& s = slots()[th];
  if (o.raw("f") == "busy") { sched::busy_ns(o.i("us") * unit()); return; }
  {
    sched::Off off;
    if (!harness()->applicable(th, o)) { return; }
    s.f = o.raw("f");
    s.busy = true;
    J j("call");
    j.i("th", th).s("f", s.f);
    harness()->call(th, o, j);
    log(j);
  }
  {
    sched::Off off;
    J r("ret");
    r.i("th", th).s("f", s.f);
    harness()->exec(th, o, r);
    s.busy = false;
    log(r);
    s.f.clear();
  }
}

inline void on_tick() { J j("tick"); j.i("now", std::min<int64_t>(sched::now_ns() / unit(), 2000000001)); log(j); }
inline void on_block(int th)
{
  if (th < int(slots().size()) && slots()[th].busy && slots()[th].f.compare(0, 3, "try") == 0) { J j("block"); j.i("th", th); log(j); }
}

inline void enter(const sched::Config& c)
{
  sched::begin(c);
  sched::on_tick(on_tick);
  sched::on_block(on_block);
}

inline void start(const Op& n)
{
  J j("new");
  j.i("th", n.i("th"));
  slots().assign(n.i("th") + 1, Slot());
  unit() = n.has("unit") ? n.i("unit") : 1000;
  { sched::Off off; harness()->reset(n, j); }
  header() = j.str() + "\n";
}

inline void det(const std::vector<Op>& ep)
{
  sched::Config c;
  enter(c);
  start(ep[0]);
  int n = ep[0].i("th");
  for (int th = 1; th <= n; ++th)
  {
    sched::spawn([th] {
      Slot& s = slots()[th];
      for (;;)
      {
        while (!s.have && !s.quit) { sched::park(&s); }
        if (s.quit) { break; }
        s.have = false;
        perform(th, s.cmd);
      }
      harness()->finish(th);
    });
  }
  sched::run_now();
  for (size_t k = 1; k < ep.size(); ++k)
  {
    const Op& o = ep[k];
    if (o.name == "do")
    {
      Slot& s = slots()[o.i("th")];
      if (s.busy || s.have) { continue; }
      s.cmd = o;
      s.have = true;
      sched::wake(&s);
      sched::run_now();
      sched::log("{\"op\":\"quiet\"}");
    }
    else if (o.name == "tick") { sched::advance_ns(o.i("us") * unit()); sched::log("{\"op\":\"quiet\"}"); }
    else { fprintf(stderr, "script: %s?\n", o.name.c_str()); _exit(71); }
  }
  for (int th = 1; th <= n; ++th) { slots()[th].quit = true; sched::wake(&slots()[th]); }
  sched::run_all();
  harness()->settle();
  sched::run_all();
  sched::log(sched::live() ? "{\"op\":\"stuck\",\"who\":\"" + sched::describe() + "\"}" : std::string("{\"op\":\"end\"}"));
  if (sched::live()) { flush(); _exit(72); }
  { harness()->fini(); }
  sched::end();
  flush();
}

inline long free_run(const std::vector<Op>& ep, const Op& run)
{
  sched::Config c;
  std::string p = run.raw("policy");
  c.policy = p == "random" ? sched::RANDOM : p == "pct" ? sched::PCT : p == "dfs" ? sched::DFS : sched::DET;
  c.depth = run.has("depth") ? run.i("depth") : 2;
  c.memory = !run.has("mem") || run.b("mem");
  std::set<std::string> seen;
  long n = run.i("n"), k = 0;
  sched::dfs_reset();
  for (; k < n; ++k)
  {
    c.seed = run.i("seed") * 1000003ULL + k;
    enter(c);
    start(ep[0]);
    int nth = ep[0].i("th");
    sched::Off *off = new sched::Off();   // all of them exist before the first one runs
    for (int th = 1; th <= nth; ++th)
    {
      sched::spawn([th, &ep] {
        for (size_t i = 1; i < ep.size(); ++i)
        {
          if (ep[i].name == "p" && ep[i].i("th") == th) { perform(th, ep[i]); }
        }
        harness()->finish(th);
      });
    }
    delete off;
    sched::run_all();
    harness()->settle();
    sched::run_all();
    sched::log(sched::live() ? "{\"op\":\"stuck\",\"who\":\"" + sched::describe() + "\"}" : std::string("{\"op\":\"end\"}"));
    if (sched::live()) { flush(); _exit(72); }
    harness()->fini();
    sched::end();
    if (seen.insert(header() + sched::events()).second) { flush(); }
    if (c.policy == sched::DFS && !sched::dfs_next()) { ++k; break; }
  }
  return k;
}

struct Shared { volatile long idx, runs; };

inline void child(const std::vector<std::vector<Op> >& eps, size_t from, size_t to, Shared *sh)
{
  for (size_t i = from; i < to; ++i)
  {
    sh->idx = i;
    alarm(60);
    const std::vector<Op>& ep = eps[i];
    if (ep[0].raw("mode") == "det") { det(ep); ++sh->runs; }
    else
    {
      for (size_t k = 1; k < ep.size(); ++k) { if (ep[k].name == "run") { sh->runs += free_run(ep, ep[k]); } }
    }
  }
  fflush(out());
  _exit(0);
}

//! main(): argv = script, trace. A child that ends early is replaced, behind the episode it was in.
inline int main(int argc, char **argv, Harness& h)
{
  harness() = &h;
  std::ifstream in(argv[argc - 2]);
  if (argc < 3 || !in) { fprintf(stderr, "usage: script trace\n"); return 71; }
  std::vector<std::vector<Op> > eps;
  std::string line;
  Op op;
  while (std::getline(in, line))
  {
    if (!vh::parse(line, op)) { continue; }
    if (op.name == "new") { eps.push_back(std::vector<Op>()); }
    eps.back().push_back(op);
  }
  int P = 8;
  if (const char *e = getenv("CONC_PAR")) { P = atoi(e); }
  std::vector<std::string> parts;
  std::vector<pid_t> pids;
  for (int s = 0; s < P; ++s)
  {
    size_t from = eps.size() * s / P, to = eps.size() * (s + 1) / P;
    std::string part = std::string(argv[argc - 1]) + ".s" + std::to_string(s);
    parts.push_back(part);
    pid_t slice = fork();
    if (slice) { pids.push_back(slice); continue; }
    // one processor for each slice: handing over the baton is fast then
    cpu_set_t all, one;
    if (sched_getaffinity(0, sizeof(all), &all) == 0)
    {
      int want = s % CPU_COUNT(&all), k = 0;
      CPU_ZERO(&one);
      for (int c = 0; c < CPU_SETSIZE; ++c) { if (CPU_ISSET(c, &all) && k++ == want) { CPU_SET(c, &one); } }
      sched_setaffinity(0, sizeof(one), &one);
    }
    out() = fopen(part.c_str(), "a");
    Shared *sh = static_cast<Shared *>(mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int crashes = 0;
    for (size_t i = from; i < to && crashes < 3;)
    {
      pid_t c = fork();
      if (c == 0) { child(eps, i, to, sh); }
      int st = 0;
      waitpid(c, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { break; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 71) { _exit(71); }
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 72))
      {
        ++crashes;
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        J k(hang ? "hang" : "crash");
        char b[64];
        snprintf(b, 64, WIFSIGNALED(st) ? "signal %d" : "exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        k.s("info", b).i("episode", sh->idx);
        fprintf(out(), "%s\n", k.str().c_str());
        fflush(out());
      }
      i = sh->idx + 1;
    }
    fprintf(stderr, "schedules %ld\n", long(sh->runs));
    _exit(0);
  }
  int rc = 0;
  for (size_t i = 0; i < pids.size(); ++i) { int st; waitpid(pids[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 71; } }
  FILE *f = fopen(argv[argc - 1], "w");
  for (size_t i = 0; i < parts.size(); ++i)
  {
    std::ifstream p(parts[i].c_str());
    while (std::getline(p, line)) { fprintf(f, "%s\n", line.c_str()); }
    unlink(parts[i].c_str());
  }
  fclose(f);
  // (no destructors: what was changed in the code may hang in them)
  fflush(stderr);
  _exit(rc);
}

}

namespace sched { void flush_and_exit(int c) { conc::flush(); _exit(c); } }
#endif
