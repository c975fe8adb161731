// icl_core::Singleton from the first use to the end of the program: one process for each episode.
#include "vh.h"
#include <stdexcept>
#include <sys/wait.h>
#include "icl_core/Singleton.hpp"

using namespace vh;
enum { MAXK = 6 };
static const char *names[] = { "newdef", "newkeep", "statdef", "statkeep", "maldef", "malkeep", "newphx" };
static FILE *out;
static int kinds[MAXK + 1], ctor[MAXK + 1], dtor[MAXK + 1], busy[MAXK + 1], serial;
static bool talk;
static void say(const char *op, int k, const char *how = NULL)
{
  if (!talk) { return; }
  J j(op);
  if (k) { j.i("k", k); }
  if (how) { j.s("how", how); }
  std::string s = j.str() + "\n";
  if (write(fileno(out), s.data(), s.size()) < 0) { _exit(71); }
}
static void use(int k);

template <int K, int N> struct Thing
{
  int no;
  Thing() { ++busy[K]; say("begin", K); if (ctor[K]) { use(ctor[K]); } no = ++serial; say("end", K); --busy[K]; }
  ~Thing() { ++busy[K]; say("dtor", K); if (dtor[K]) { use(dtor[K]); } no = -1; say("dtorend", K); --busy[K]; }
};
struct Plain { int no; };
template <int K, int N> struct Pod : Plain {};
template <class T> struct Phoenix
{
  static void scheduleDestruction(icl_core::DestructionFuncPtr f) { atexit(f); }
  static void onDeadReference() {}
};

template <class T, template <class> class C, template <class> class L> static long get()
{
  T& t = icl_core::Singleton<T, C, L>::instance();
  return t.no;
}
// where a static one is even if it was destroyed
template <class T, template <class> class C, template <class> class L> static long where()
{
  return reinterpret_cast<long>(&icl_core::Singleton<T, C, L>::instance());
}
typedef long (*Get)();
template <int K> static Get getter(int n)
{
  using namespace icl_core;
  switch (n)
  {
  case 0: return &get<Thing<K, 0>, SCPCreateUsingNew, SLPDefaultLifetime>;
  case 1: return &get<Thing<K, 1>, SCPCreateUsingNew, SLPNoDestroy>;
  case 2: return &where<Thing<K, 2>, SCPCreateStatic, SLPDefaultLifetime>;
  case 3: return &where<Thing<K, 3>, SCPCreateStatic, SLPNoDestroy>;
  case 4: return &where<Pod<K, 4>, SCPCreateUsingMalloc, SLPDefaultLifetime>;
  case 5: return &where<Pod<K, 5>, SCPCreateUsingMalloc, SLPNoDestroy>;
  }
  return &get<Thing<K, 6>, SCPCreateUsingNew, Phoenix>;
}
static Get getters[MAXK + 1];
static long last[MAXK + 1];
static bool given[MAXK + 1];

static void use(int k)
{
  if (busy[k]) { return; }
  ++busy[k];
  say("use", k);
  try
  {
    long v = getters[k]();
    const char *how = given[k] && last[k] == v ? "same" : "other";
    given[k] = true;
    last[k] = v;
    say("give", k, how);
  }
  catch (const std::logic_error&) { say("give", k, "dead"); }
  --busy[k];
}

static void run(const std::vector<Op>& ep)
{
  int n = 0;
  std::stringstream ss(ep[0].raw("kind"));
  std::string t, list;
  while (std::getline(ss, t, ','))
  {
    ++n;
    list += (n > 1 ? ",\"" : "\"") + t + "\"";
    for (int k = 0; k < 7; ++k) { if (t == names[k]) { kinds[n] = k; } }
  }
  Get g[] = { NULL, getter<1>(kinds[1]), getter<2>(kinds[2]), getter<3>(kinds[3]), getter<4>(kinds[4]), getter<5>(kinds[5]), getter<6>(kinds[6]) };
  for (int k = 1; k <= MAXK; ++k) { getters[k] = g[k]; }
  Ints c = ep[0].ints("ctor"), d = ep[0].ints("dtor");
  for (int k = 0; k < n; ++k) { ctor[k + 1] = int(c[k]); dtor[k + 1] = int(d[k]); }
  talk = true;
  for (size_t i = 1; i < ep.size(); ++i)
  {
    if (ep[i].name == "use") { use(int(ep[i].i("k"))); }
  }
  say("exit", 0);
  exit(0);
}

int main(int argc, char **argv)
{
  std::ifstream in(argv[1]);
  out = fopen(argv[2], "w");
  std::vector<std::vector<Op> > eps;
  std::string line;
  Op op;
  while (std::getline(in, line))
  {
    if (!parse(line, op)) { continue; }
    if (op.name == "new") { eps.push_back(std::vector<Op>()); }
    eps.back().push_back(op);
  }
  for (size_t i = 0; i < eps.size(); ++i)
  {
    std::string kd, t;
    std::stringstream ss(eps[i][0].raw("kind"));
    while (std::getline(ss, t, ',')) { kd += (kd.empty() ? "[\"" : ",\"") + t + "\""; }
    fprintf(out, "%s\n", J("new").raw("kind", kd + "]").str().c_str());
    fflush(out);
    pid_t p = fork();
    if (p == 0) { alarm(20); run(eps[i]); }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 71) { return 71; }
    talk = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { fseek(out, 0, SEEK_END); say("over", 0); }
    else { fseek(out, 0, SEEK_END); fprintf(out, "%s\n", J("crash").i("status", st).str().c_str()); fflush(out); }
    talk = false;
  }
  talk = false;
  fclose(out);
  return 0;
}
