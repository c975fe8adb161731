// Controlled scheduling of real threads under a virtual clock.
//
// Every thread is a real one, but only the one that holds the baton runs. The library functions that block, synchronise or
// ask for the time are replaced here; the real non-blocking variants decide whether a request can be granted, so that the
// real objects (attributes, counts, owners) determine the behaviour, and only the waiting is simulated. Preemption happens at
// these calls and, in instrumented code, at loads and stores outside of the own stack.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <memory>
#include <vector>

namespace sched {

static const int64_t BASE_REAL = 1700000000LL * 1000000000LL;
static const int64_t BASE_MONO = 5000LL * 1000000000LL;
static const int64_t NEVER = INT64_MAX;

enum State { READY, WAITING, IDLE, ENDED };

struct Th
{
  int id;
  State state;
  int go;                  // futex: baton handed over
  const void *addr;        // what it waits for
  int64_t wake;            // virtual time at which it wakes by itself
  bool timed_out, polite;  // polite: sleeping, not waiting for an object
  bool cancelled, joined, detached;
  int spins;               // how often it ran long without reaching anything, since...
  long since_progress;     // ...this much had been reached
  int prio;
  pthread_t pt;
  char *lo, *hi;           // own stack
  void *(*fn)(void *);
  void *arg;
  std::function<void()> body;
  Th() : id(0), state(READY), go(0), addr(NULL), wake(NEVER), timed_out(false), polite(false), cancelled(false), joined(false),
         detached(false), spins(0), since_progress(0), prio(0), pt(0), lo(NULL), hi(NULL), fn(NULL), arg(NULL) {}
};

static bool g_active;
static std::vector<Th *> g_th;
static Th *g_cur;
static int64_t g_now, g_jump;        // nanoseconds since the start of the episode; offset of CLOCK_REALTIME
static Config g_c;
static uint64_t g_rng;
static long g_steps, g_since, g_bb, g_len, g_progress;
static int64_t g_poll_until;
static uint64_t g_rate;
static int g_fail_create;
static long g_polls;
static std::string g_log;
static long g_nlog;
static bool g_idle_clock;            // whether time passes before the controller goes on
static std::vector<long> g_change;
static int g_low;
static void (*g_tick)();
static void (*g_block)(int);
static __thread Th *me;
static __thread int t_off;
static __thread int t_in;

struct Timer { int64_t next, interval; bool armed; };
static std::map<int, std::shared_ptr<Timer> > g_timers;
static int g_next_fd = 1 << 20;

// --- bounded systematic exploration
struct Choice { int chosen, options, cost; };
static std::vector<Choice> g_path;
static size_t g_pos;

static uint64_t rnd()
{
  g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
  return g_rng * 2685821657736338717ULL >> 11;
}

template <typename F> static F real(F, const char *name)
{
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "sched: no real %s\n", name); _exit(71); }
  return reinterpret_cast<F>(p);
}
template <typename R, typename... A> static R (*plain(R (*f)(A...)))(A...) { return f; }
#define REAL(f) ({ static decltype(plain(&::f)) r_ = NULL; if (!r_) { r_ = real(plain(&::f), #f); } r_; })

static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, NULL, NULL, 0); }
static void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

static void sleep_baton(Th *t)
{
  while (__atomic_exchange_n(&t->go, 0, __ATOMIC_ACQUIRE) == 0) { futex_wait(&t->go, 0); }
}
static void give_baton(Th *t)
{
  g_cur = t;
  g_since = 0;
  g_bb = 0;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  futex_wake(&t->go);
}

static void die(const char *what)
{
  g_active = false;
  log(std::string("{\"op\":\"") + what + "\",\"who\":\"" + describe() + "\"}");
  extern void flush_and_exit(int);
  flush_and_exit(72);
}

static int64_t next_wake()
{
  int64_t w = NEVER;
  for (size_t i = 0; i < g_th.size(); ++i)
  {
    if (g_th[i]->state == WAITING) { w = std::min(w, g_th[i]->wake); }
  }
  return w;
}

static void set_now(int64_t t)
{
  if (t > g_now) { g_now = t; if (g_tick) { ++t_off; g_tick(); --t_off; } }
  for (size_t i = 0; i < g_th.size(); ++i)
  {
    Th *x = g_th[i];
    if (x->state == WAITING && x->wake <= g_now) { x->state = READY; x->timed_out = true; }
  }
}

// Chooses the next thread; `cont`: the current one could go on.
static Th *choose(bool cont, bool forced)
{
  for (;;)
  {
    std::vector<Th *> r;
    Th *idle = NULL;
    for (size_t i = 0; i < g_th.size(); ++i)
    {
      if (g_th[i]->state == READY) { r.push_back(g_th[i]); }
      else if (g_th[i]->state == IDLE) { idle = g_th[i]; }
    }
    int64_t w = next_wake();
    if (r.empty())
    {
      // Nothing can run: time passes (or, without that, only for short sleeps that poll for something)
      if (w != NEVER && (idle == NULL || g_idle_clock)) { set_now(w); continue; }
      if (idle && !g_idle_clock && w != NEVER)
      {
        bool shorts = false;
        for (size_t i = 0; i < g_th.size(); ++i)
        {
          shorts = shorts || (g_th[i]->state == WAITING && g_th[i]->polite && g_th[i]->wake - g_now <= 5000 && g_th[i]->wake == w);
        }
        if (g_polls == 0 || g_now > g_poll_until) { g_polls = 0; g_poll_until = g_now + 20000000; }
        if (shorts && g_polls < 40) { ++g_polls; set_now(w); continue; }
        g_polls = 0;
      }
      if (idle) { idle->state = READY; return idle; }
      die("stuck");
    }
    bool clock = w != NEVER && (idle == NULL || g_idle_clock);
    // All that can run are busy waiting: as if none could run
    bool spinning = true;
    for (size_t i = 0; i < r.size(); ++i) { spinning = spinning && r[i]->spins >= 50 && r[i]->since_progress == g_progress; }
    if (spinning && idle && !g_idle_clock) { idle->state = READY; ++g_progress; return idle; }
    if (spinning && clock) { ++g_progress; set_now(w); continue; }
    switch (g_c.policy)
    {
      case DET:
      {
        if (cont && !forced) { return g_cur; }
        // round robin from the current one
        for (size_t k = 1; k <= g_th.size(); ++k)
        {
          Th *t = g_th[(g_cur->id + k) % g_th.size()];
          if (t->state == READY) { return t; }
        }
        return r[0];
      }
      case RANDOM:
      {
        if (clock && rnd() % 24 == 0) { set_now(w); continue; }
        return r[rnd() % r.size()];
      }
      case PCT:
      {
        if (clock && rnd() % 32 == 0) { set_now(w); continue; }
        if (forced) { g_cur->prio = --g_low; }
        Th *b = r[0];
        for (size_t i = 1; i < r.size(); ++i) { if (r[i]->prio > b->prio) { b = r[i]; } }
        return b;
      }
      case DFS:
      {
        // Option 0 is to go on; then the others by number; then the clock
        std::vector<Th *> o;
        if (cont && !forced) { o.push_back(g_cur); }
        for (size_t i = 0; i < r.size(); ++i) { if (!(cont && r[i] == g_cur)) { o.push_back(r[i]); } }
        if (forced && cont) { o.push_back(g_cur); }
        int n = int(o.size()) + (clock ? 1 : 0), k = 0;
        if (n > 1 && !forced)
        {
          if (g_pos < g_path.size()) { k = g_path[g_pos].chosen; if (k >= n) { k = n - 1; } g_path[g_pos].options = n; }
          else { Choice c = { 0, n, cont ? 1 : 0 }; g_path.push_back(c); }
          g_path[g_pos].cost = cont ? 1 : 0;
          if (k == int(o.size()) && g_path[g_pos].cost == 0) { g_path[g_pos].cost = 1; }
          ++g_pos;
        }
        if (k == int(o.size())) { set_now(w); cont = cont && g_cur->state == READY; continue; }
        return o[k];
      }
    }
  }
}

bool dfs_next()
{
  // budget: the number of choices that deviate from "go on" (or pass time) is bounded
  while (!g_path.empty())
  {
    Choice& c = g_path.back();
    int used = 0;
    for (size_t i = 0; i + 1 < g_path.size(); ++i) { used += g_path[i].chosen ? g_path[i].cost : 0; }
    if (c.chosen + 1 < c.options && (c.cost == 0 || used + 1 <= g_c.depth)) { ++c.chosen; return true; }
    g_path.pop_back();
  }
  return false;
}
void dfs_reset() { g_path.clear(); }

static void switch_to(Th *t)
{
  Th *s = me;
  if (t == s) { return; }
  give_baton(t);
  if (s->state != ENDED) { sleep_baton(s); }
}

static void check_cancel()
{
  if (me->cancelled) { me->cancelled = false; pthread_exit(PTHREAD_CANCELED); }
}

static void reschedule(bool cont, bool forced = false)
{
  ++t_in;
  Th *t = choose(cont, forced);
  switch_to(t);
  --t_in;
}

static void spin(int n)
{
  if (me->since_progress != g_progress) { me->since_progress = g_progress; me->spins = 0; }
  me->spins += n;
}

// Preemption point. kind 0: memory, 1: synchronisation
static void pt(int kind)
{
  if (!g_active || !me || t_off || t_in || g_cur != me) { return; }
  ++g_steps;
  ++g_since;
  if (g_steps > g_c.max_steps) { die("livelock"); }
  bool forced = g_since > 3000;
  if (forced) { spin(25); }
  switch (g_c.policy)
  {
    case DET: if (!forced) { return; } break;
    case RANDOM:
      if (!forced && rnd() % (kind == 0 ? g_rate : 3) != 0) { return; }
      break;
    case PCT:
      for (size_t i = 0; i < g_change.size(); ++i) { if (g_change[i] == g_steps) { me->prio = --g_low; } }
      break;
    case DFS:
      if (kind == 0 && !g_c.memory && !forced) { return; }
      break;
  }
  if (kind == 0 && !g_c.memory && !forced) { return; }
  reschedule(true, forced);
}

// Waits for an object (or, without one, for the time); true: woken or granted, false: the deadline has passed
static bool wait_on(const void *addr, int64_t deadline, bool polite = false)
{
  Th *s = me;
  if (g_block) { ++t_off; g_block(s->id); --t_off; }
  s->state = WAITING;
  s->addr = addr;
  s->wake = deadline;
  s->timed_out = false;
  s->polite = polite;
  if (deadline <= g_now) { s->state = READY; s->timed_out = true; }
  ++g_steps;
  if (g_steps > g_c.max_steps) { die("livelock"); }
  reschedule(false);
  s->addr = NULL;
  s->wake = NEVER;
  return !s->timed_out;
}

static void wake_all(const void *addr)
{
  for (size_t i = 0; i < g_th.size(); ++i)
  {
    if (g_th[i]->state == WAITING && g_th[i]->addr == addr) { g_th[i]->state = READY; g_th[i]->timed_out = false; ++g_progress; }
  }
}

static bool on() { return g_active && me && !t_in; }

static int64_t from_spec(clockid_t c, const struct timespec *ts)
{
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME ? BASE_MONO : BASE_REAL + g_jump);
  if (v >= NEVER) { return NEVER - 1; }
  if (v < -(__int128)NEVER) { return -NEVER; }
  return int64_t(v);
}
static bool valid(const struct timespec *ts) { return ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000; }

// Common form of all locking requests: try, and wait until it is worth trying again.
template <typename F> static int acquire(const void *addr, F attempt, int busy_code, const struct timespec *dl, clockid_t c = CLOCK_REALTIME, bool cancellable = false)
{
  pt(1);
  for (bool last = false;;)
  {
    ++t_in;
    int r = attempt();
    --t_in;
    if (r != busy_code) { return r; }
    if (dl && !valid(dl)) { return EINVAL; }
    int64_t d = dl ? from_spec(c, dl) : NEVER;
    if (dl && (last || d <= g_now)) { return ETIMEDOUT; }
    last = !wait_on(addr, d);
    if (cancellable) { check_cancel(); }
  }
}

struct Ender { ~Ender(); };

static void thread_end()
{
  Th *s = me;
  ++t_in;
  s->state = ENDED;
  wake_all(s);
  Th *t = choose(false, false);
  me = NULL;
  give_baton(t);
}
Ender::~Ender() { thread_end(); }

static void stack_of(Th *t)
{
  pthread_attr_t a;
  if (pthread_getattr_np(pthread_self(), &a) == 0)
  {
    void *p; size_t n;
    pthread_attr_getstack(&a, &p, &n);
    t->lo = static_cast<char *>(p);
    t->hi = t->lo + n;
    pthread_attr_destroy(&a);
  }
}

static void *trampoline(void *p)
{
  Th *t = static_cast<Th *>(p);
  t_in = 1;
  me = t;
  stack_of(t);
  sleep_baton(t);
  t_in = 0;
  Ender e;
  if (t->body) { t->body(); return NULL; }
  return t->fn(t->arg);
}

static Th *create(pthread_t *id, const pthread_attr_t *attr, void *(*fn)(void *), void *arg, const std::function<void()>& body, int& rc)
{
  ++t_in;
  Th *t = new Th();
  t->id = int(g_th.size());
  t->fn = fn;
  t->arg = arg;
  t->body = body;
  t->prio = int(rnd() % 1000) + 1000;
  rc = REAL(pthread_create)(id ? id : &t->pt, attr, trampoline, t);
  if (rc == 0)
  {
    if (id) { t->pt = *id; }
    g_th.push_back(t);
  }
  else { delete t; t = NULL; }
  --t_in;
  return t;
}

static Th *find(pthread_t p)
{
  for (size_t i = g_th.size(); i-- > 0;) { if (g_th[i]->pt == p && !(g_th[i]->joined)) { return g_th[i]; } }
  return NULL;
}

// ------------------------------------------------------------------------------------------------ interface
void begin(const Config& c)
{
  for (size_t i = 0; i < g_th.size(); ++i) { delete g_th[i]; }
  g_th.clear();
  g_c = c;
  g_rng = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  for (int i = 0; i < 4; ++i) { rnd(); }
  g_now = g_jump = 0;
  { static const uint64_t rates[] = { 2, 4, 8, 24 }; g_rate = rates[c.seed % 4]; }
  g_steps = g_since = g_bb = g_progress = g_poll_until = g_polls = g_fail_create = 0;
  g_log.clear();
  g_nlog = 0;
  g_timers.clear();
  g_pos = 0;
  g_low = 500;
  g_idle_clock = false;
  g_change.clear();
  if (g_len < 40) { g_len = 400; }
  if (c.policy == PCT) { for (int i = 0; i < c.depth; ++i) { g_change.push_back(1 + long(rnd() % uint64_t(g_len))); } }
  Th *t = new Th();
  t->prio = 2000;
  t->pt = pthread_self();
  stack_of(t);
  g_th.push_back(t);
  me = t;
  g_cur = t;
  g_active = true;
}
void end()
{
  ++t_in;
  g_active = false;
  me = NULL;
  g_len = g_steps;
  for (size_t i = 1; i < g_th.size(); ++i)
  {
    if (!g_th[i]->joined && !g_th[i]->detached && g_th[i]->state == ENDED) { REAL(pthread_join)(g_th[i]->pt, NULL); g_th[i]->joined = true; }
  }
  --t_in;
}
long steps() { return g_steps; }
int self() { return me ? me->id : -1; }
int64_t now_us() { return g_now / 1000; }
int64_t now_ns() { return g_now; }
int64_t base_sec() { return BASE_REAL / 1000000000; }
int64_t to_us(int64_t sec, int64_t nsec)
{
  __int128 v = ((__int128)sec * 1000000000 + nsec - BASE_REAL - g_jump);
  v = v >= 0 ? (v + 999) / 1000 : v / 1000;
  return v > 2000000000 ? 2000000000 : v < -2000000000 ? -2000000000 : int64_t(v);
}
void log(const std::string& line) { ++t_off; ++g_progress; g_log += line; g_log += '\n'; ++g_nlog; --t_off; }
const std::string& events() { return g_log; }
long event_count() { return g_nlog; }
int live() { int n = 0; for (size_t i = 1; i < g_th.size(); ++i) { n += g_th[i]->state != ENDED; } return n; }
int unjoined() { int n = 0; for (size_t i = 1; i < g_th.size(); ++i) { n += !g_th[i]->body && !g_th[i]->joined && !g_th[i]->detached; } return n; }
void fail_create(int n) { g_fail_create = n; }
std::string describe()
{
  std::string r;
  for (size_t i = 0; i < g_th.size(); ++i)
  {
    char b[96];
    snprintf(b, 96, "%d:%s%s ", g_th[i]->id, g_th[i]->state == READY ? "ready" : g_th[i]->state == WAITING ? "waiting" : g_th[i]->state == IDLE ? "idle" : "ended", g_th[i]->body ? "" : "*");
    r += b;
  }
  return r;
}
int open_timers() { return int(g_timers.size()); }
void jump_realtime(int64_t us) { g_jump += us * 1000; }
bool blocked(int t) { return t < int(g_th.size()) && g_th[t]->state == WAITING; }
void on_tick(void (*f)()) { g_tick = f; }
void on_block(void (*f)(int)) { g_block = f; }
static void idle(bool clock)
{
  g_idle_clock = clock;
  me->state = IDLE;
  reschedule(false);
  me->state = READY;
  g_idle_clock = false;
}
void run_now() { idle(false); }
void run_all() { idle(true); }
void advance(int64_t us) { advance_ns(us * 1000); }
void advance_ns(int64_t ns)
{
  int64_t until = g_now + ns;
  for (;;)
  {
    int64_t w = next_wake();
    if (w > until) { break; }
    ++t_in; set_now(std::max(w, g_now)); --t_in;
    run_now();
  }
  ++t_in; set_now(until); --t_in;
  run_now();
}
void busy(int64_t us) { busy_ns(us * 1000); }
void busy_ns(int64_t ns) { if (on()) { wait_on(NULL, g_now + ns, true); } }
void point() { pt(1); }
void park(const void *a) { if (on()) { wait_on(a, NEVER); } }
void wake(const void *a) { wake_all(a); }
int spawn(const std::function<void()>& f)
{
  int rc;
  Th *t = create(NULL, NULL, NULL, NULL, f, rc);
  if (!t) { fprintf(stderr, "sched: no thread\n"); _exit(71); }
  return t->id;
}
Off::Off() { ++t_off; }
Off::~Off() { --t_off; }
On::On() : saved(t_off) { t_off = 0; pt(1); }
On::~On() { pt(1); t_off = saved; }

static void mem(void *a)
{
  if (!g_active || t_off || t_in || !me || g_cur != me) { return; }
  if (static_cast<char *>(a) >= me->lo && static_cast<char *>(a) < me->hi) { return; }
  pt(0);
}

}

using namespace sched;

// ------------------------------------------------------------------------------------------------ instrumentation
extern "C" {
void __sanitizer_cov_trace_pc()
{
  if (!g_active || !me || t_in || t_off || g_cur != me) { return; }
  if (++g_bb > 20000) { g_bb = 0; g_since = 4000; pt(0); return; }
  // between the accesses (atomic ones are not reported)
  if (!g_c.memory) { return; }
  if (g_c.policy == RANDOM || g_c.policy == DFS || (g_c.seed & 1)) { pt(0); }
}
#define LS(n, t) void __sanitizer_cov_load##n(t *a) { mem(a); } void __sanitizer_cov_store##n(t *a) { mem(a); }
LS(1, uint8_t) LS(2, uint16_t) LS(4, uint32_t) LS(8, uint64_t) LS(16, __uint128_t)

// ------------------------------------------------------------------------------------------------ mutexes
int pthread_mutex_lock(pthread_mutex_t *m)
{
  if (!on()) { return REAL(pthread_mutex_lock)(m); }
  return acquire(m, [=] { return REAL(pthread_mutex_trylock)(m); }, EBUSY, NULL);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!on()) { return REAL(pthread_mutex_trylock)(m); }
  pt(1);
  return REAL(pthread_mutex_trylock)(m);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
  if (!on()) { return REAL(pthread_mutex_timedlock)(m, ts); }
  return acquire(m, [=] { return REAL(pthread_mutex_trylock)(m); }, EBUSY, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts)
{
  if (!on()) { return REAL(pthread_mutex_clocklock)(m, c, ts); }
  return acquire(m, [=] { return REAL(pthread_mutex_trylock)(m); }, EBUSY, ts, c);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (!on()) { return REAL(pthread_mutex_unlock)(m); }
  pt(1);
  int r = REAL(pthread_mutex_unlock)(m);
  wake_all(m);
  pt(1);
  return r;
}

// ------------------------------------------------------------------------------------------------ read-write locks
// A blocking request by the writer itself is refused
static bool own_write(pthread_rwlock_t *m) { return m->__data.__cur_writer == int(syscall(SYS_gettid)); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
  if (!on()) { return REAL(pthread_rwlock_rdlock)(m); }
  if (own_write(m)) { return EDEADLK; }
  return acquire(m, [=] { return REAL(pthread_rwlock_tryrdlock)(m); }, EBUSY, NULL);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
  if (!on()) { return REAL(pthread_rwlock_tryrdlock)(m); }
  pt(1);
  return REAL(pthread_rwlock_tryrdlock)(m);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *ts)
{
  if (!on()) { return REAL(pthread_rwlock_timedrdlock)(m, ts); }
  if (own_write(m)) { return EDEADLK; }
  return acquire(m, [=] { return REAL(pthread_rwlock_tryrdlock)(m); }, EBUSY, ts);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
  if (!on()) { return REAL(pthread_rwlock_wrlock)(m); }
  if (own_write(m)) { return EDEADLK; }
  return acquire(m, [=] { return REAL(pthread_rwlock_trywrlock)(m); }, EBUSY, NULL);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
  if (!on()) { return REAL(pthread_rwlock_trywrlock)(m); }
  pt(1);
  return REAL(pthread_rwlock_trywrlock)(m);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *ts)
{
  if (!on()) { return REAL(pthread_rwlock_timedwrlock)(m, ts); }
  if (own_write(m)) { return EDEADLK; }
  return acquire(m, [=] { return REAL(pthread_rwlock_trywrlock)(m); }, EBUSY, ts);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t c, const struct timespec *ts)
{
  if (!on()) { return REAL(pthread_rwlock_clockrdlock)(m, c, ts); }
  if (own_write(m)) { return EDEADLK; }
  return acquire(m, [=] { return REAL(pthread_rwlock_tryrdlock)(m); }, EBUSY, ts, c);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t c, const struct timespec *ts)
{
  if (!on()) { return REAL(pthread_rwlock_clockwrlock)(m, c, ts); }
  if (own_write(m)) { return EDEADLK; }
  return acquire(m, [=] { return REAL(pthread_rwlock_trywrlock)(m); }, EBUSY, ts, c);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
  if (!on()) { return REAL(pthread_rwlock_unlock)(m); }
  pt(1);
  int r = REAL(pthread_rwlock_unlock)(m);
  wake_all(m);
  pt(1);
  return r;
}

// ------------------------------------------------------------------------------------------------ semaphores
static int sem_result(int r) { if (r == 0) { return 0; } errno = r; return -1; }
static int sem_attempt(sem_t *s) { return REAL(sem_trywait)(s) == 0 ? 0 : errno; }
int sem_wait(sem_t *s)
{
  if (!on()) { return REAL(sem_wait)(s); }
  check_cancel();
  return sem_result(acquire(s, [=] { return sem_attempt(s); }, EAGAIN, NULL, CLOCK_REALTIME, true));
}
int sem_trywait(sem_t *s)
{
  if (!on()) { return REAL(sem_trywait)(s); }
  pt(1);
  return REAL(sem_trywait)(s);
}
int sem_timedwait(sem_t *s, const struct timespec *ts)
{
  if (!on()) { return REAL(sem_timedwait)(s, ts); }
  check_cancel();
  return sem_result(acquire(s, [=] { return sem_attempt(s); }, EAGAIN, ts, CLOCK_REALTIME, true));
}
int sem_clockwait(sem_t *s, clockid_t c, const struct timespec *ts)
{
  if (!on()) { return REAL(sem_clockwait)(s, c, ts); }
  check_cancel();
  return sem_result(acquire(s, [=] { return sem_attempt(s); }, EAGAIN, ts, c, true));
}
int sem_post(sem_t *s)
{
  if (!on()) { return REAL(sem_post)(s); }
  pt(1);
  int r = REAL(sem_post)(s);
  wake_all(s);
  pt(1);
  return r;
}

// ------------------------------------------------------------------------------------------------ conditions
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts, clockid_t k)
{
  if (ts && !valid(ts)) { return EINVAL; }
  check_cancel();
  pt(1);
  REAL(pthread_mutex_unlock)(m);
  wake_all(m);
  bool ok = wait_on(c, ts ? from_spec(k, ts) : NEVER);
  acquire(m, [=] { return REAL(pthread_mutex_trylock)(m); }, EBUSY, NULL);
  check_cancel();
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return on() ? cond_wait(c, m, NULL, 0) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
  return on() ? cond_wait(c, m, ts, CLOCK_REALTIME) : REAL(pthread_cond_timedwait)(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
  return on() ? cond_wait(c, m, ts, k) : REAL(pthread_cond_clockwait)(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t *c)
{
  if (!on()) { return REAL(pthread_cond_signal)(c); }
  for (size_t i = 0; i < g_th.size(); ++i)
  {
    if (g_th[i]->state == WAITING && g_th[i]->addr == c) { g_th[i]->state = READY; g_th[i]->timed_out = false; break; }
  }
  pt(1);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
  if (!on()) { return REAL(pthread_cond_broadcast)(c); }
  wake_all(c);
  pt(1);
  return 0;
}

// ------------------------------------------------------------------------------------------------ threads
int pthread_create(pthread_t *id, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
  if (!on()) { return REAL(pthread_create)(id, attr, fn, arg); }
  pt(1);
  if (g_fail_create > 0) { --g_fail_create; return EAGAIN; }
  int rc;
  create(id, attr, fn, arg, std::function<void()>(), rc);
  pt(1);
  return rc;
}
int pthread_join(pthread_t p, void **res)
{
  if (!on()) { return REAL(pthread_join)(p, res); }
  pt(1);
  check_cancel();
  Th *t = sched::find(p);
  if (!t) { die("join of no thread"); }
  if (t == me) { return EDEADLK; }
  while (t->state != ENDED) { wait_on(t, NEVER); check_cancel(); }
  if (t->joined) { return ESRCH; }
  t->joined = true;
  ++t_in;
  int r = REAL(pthread_join)(p, res);
  --t_in;
  return r;
}
int pthread_detach(pthread_t p)
{
  if (on()) { Th *t = sched::find(p); if (t) { t->detached = true; } }
  return REAL(pthread_detach)(p);
}
int pthread_cancel(pthread_t p)
{
  if (!on()) { return REAL(pthread_cancel)(p); }
  pt(1);
  Th *t = sched::find(p);
  if (!t) { die("cancel of no thread"); }
  if (t->state == ENDED) { return ESRCH; }
  t->cancelled = true;
  // sleeping and waiting for a semaphore or a thread can be cancelled; a mutex can not
  if (t->state == WAITING) { t->state = READY; t->timed_out = false; }
  return 0;
}
void pthread_testcancel(void) { if (on()) { check_cancel(); } }
int sched_yield(void)
{
  if (!on() || t_off) { return REAL(sched_yield)(); }
  ++g_steps;
  if (g_steps > g_c.max_steps) { die("livelock"); }
  spin(1);
  reschedule(true, true);
  return 0;
}

// ------------------------------------------------------------------------------------------------ time
static void nap(int64_t ns)
{
  check_cancel();
  wait_on(NULL, ns <= 0 ? g_now : g_now > NEVER - 1 - ns ? NEVER - 1 : g_now + ns, true);
  check_cancel();
}
int usleep(useconds_t us) { if (!on()) { return REAL(usleep)(us); } nap(int64_t(us) * 1000); return 0; }
unsigned sleep(unsigned s) { if (!on()) { return REAL(sleep)(s); } nap(int64_t(s) * 1000000000); return 0; }
int nanosleep(const struct timespec *ts, struct timespec *rem)
{
  if (!on()) { return REAL(nanosleep)(ts, rem); }
  if (!valid(ts) || ts->tv_sec < 0) { errno = EINVAL; return -1; }
  nap(ts->tv_sec > 1000000000 ? NEVER / 2 : int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec);
  if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem)
{
  if (!on()) { return REAL(clock_nanosleep)(c, flags, ts, rem); }
  if (!valid(ts)) { return EINVAL; }
  nap(flags & TIMER_ABSTIME ? from_spec(c, ts) - g_now : int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec);
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) __THROW
{
  if (!g_active || !me) { return REAL(clock_gettime)(c, ts); }
  if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_BOOTTIME) { return REAL(clock_gettime)(c, ts); }
  pt(1);
  int64_t v = g_now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? BASE_REAL + g_jump : BASE_MONO);
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict tz) __THROW
{
  if (!g_active || !me) { return REAL(gettimeofday)(tv, tz); }
  pt(1);
  int64_t v = g_now + BASE_REAL + g_jump;
  tv->tv_sec = v / 1000000000;
  tv->tv_usec = v % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *t) __THROW
{
  if (!g_active || !me) { return REAL(time)(t); }
  time_t v = (g_now + BASE_REAL + g_jump) / 1000000000;
  if (t) { *t = v; }
  return v;
}

// ------------------------------------------------------------------------------------------------ timers
int timerfd_create(clockid_t c, int flags) __THROW
{
  if (!on()) { return REAL(timerfd_create)(c, flags); }
  Timer t = { 0, 0, false };
  g_timers[g_next_fd] = std::make_shared<Timer>(t);
  return g_next_fd++;
}
int timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *old) __THROW
{
  if (!on()) { return REAL(timerfd_settime)(fd, flags, n, old); }
  pt(1);
  std::map<int, std::shared_ptr<Timer> >::iterator it = g_timers.find(fd);
  if (it == g_timers.end()) { errno = EBADF; return -1; }
  if (!valid(&n->it_value) || !valid(&n->it_interval) || n->it_value.tv_sec < 0 || n->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
  int64_t v = int64_t(n->it_value.tv_sec) * 1000000000 + n->it_value.tv_nsec;
  it->second->interval = int64_t(n->it_interval.tv_sec) * 1000000000 + n->it_interval.tv_nsec;
  it->second->armed = v != 0;
  it->second->next = flags & TFD_TIMER_ABSTIME ? v - BASE_MONO : g_now + v;
  wake_all(it->second.get());
  return 0;
}
ssize_t read(int fd, void *buf, size_t n)
{
  if (!on() || g_timers.find(fd) == g_timers.end()) { return REAL(read)(fd, buf, n); }
  check_cancel();
  pt(1);
  std::map<int, std::shared_ptr<Timer> >::iterator it = g_timers.find(fd);
  if (it == g_timers.end()) { errno = EBADF; return -1; }
  std::shared_ptr<Timer> open = it->second;      // it stays open for this call
  Timer& t = *open;
  for (;;)
  {
    if (t.armed && t.next <= g_now)
    {
      uint64_t k = 1;
      if (t.interval) { k += uint64_t((g_now - t.next) / t.interval); t.next += int64_t(k) * t.interval; }
      else { t.armed = false; }
      memcpy(buf, &k, 8);
      return 8;
    }
    wait_on(&t, t.armed ? t.next : NEVER);
    check_cancel();
  }
}
int close(int fd)
{
  if (g_active && me && g_timers.erase(fd)) { return 0; }
  return REAL(close)(fd);
}

// ------------------------------------------------------------------------------------------------ initialisation of local statics
int __cxa_guard_acquire(int64_t *g)
{
  char *b = reinterpret_cast<char *>(g);
  for (;;)
  {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    if (on()) { wait_on(g, NEVER); } else { REAL(sched_yield)(); }
  }
}
void __cxa_guard_release(int64_t *g)
{
  char *b = reinterpret_cast<char *>(g);
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  b[1] = 0;
  if (on()) { wake_all(g); pt(1); }
}
void __cxa_guard_abort(int64_t *g)
{
  reinterpret_cast<char *>(g)[1] = 0;
  if (on()) { wake_all(g); pt(1); }
}
}
