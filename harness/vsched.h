// Controlled scheduling of real threads under a virtual clock. See sched.cpp.
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#include <functional>
#include <string>

namespace sched {

enum Policy { DET, RANDOM, PCT, DFS };

struct Config
{
  Policy policy;
  uint64_t seed;
  int depth;         //!< PCT: number of priority changes; DFS: number of preemptions
  bool memory;       //!< preempt at memory accesses too
  long max_steps;
  Config() : policy(DET), seed(1), depth(2), memory(true), max_steps(400000) {}
};

//! The calling thread becomes the controller (number 0); from here on its threads run under control.
void begin(const Config& c);
//! Ends the control; all other threads have to be finished.
void end();
//! DFS: prepares the next schedule; false if all schedules within the bound were run.
bool dfs_next();
void dfs_reset();
//! Steps taken since begin().
long steps();

int self();                                 //!< number of the calling thread
int64_t now_us();                           //!< virtual time since the start of the episode
int64_t now_ns();
int64_t to_us(int64_t sec, int64_t nsec);   //!< CLOCK_REALTIME instant in the same scale (saturated)
int64_t base_sec();                         //!< CLOCK_REALTIME second at which the episode started
void log(const std::string& line);          //!< one event of the episode
const std::string& events();
long event_count();
int live();                                 //!< threads other than the controller that have not ended
std::string describe();                     //!< the threads and their states
int open_timers();
int unjoined();                             //!< threads the code under test has created and neither joined nor detached
void fail_create(int n);                    //!< creating a thread fails that often
void jump_realtime(int64_t us);             //!< sets CLOCK_REALTIME, CLOCK_MONOTONIC goes on
bool blocked(int thread);                   //!< whether a thread waits for something
void on_tick(void (*f)());                  //!< called when virtual time has changed
void on_block(void (*f)(int));              //!< called when a thread is about to wait

void run_now();                             //!< controller: the others run until none can without time passing
void run_all();                             //!< controller: the others run, time passes, until none can
void advance_ns(int64_t ns);
void advance(int64_t us);                   //!< controller: time passes, others run in between
void busy_ns(int64_t ns);
void busy(int64_t us);                      //!< the calling thread computes for that long
void park(const void *addr);                //!< waits until wake() is called for the address
void wake(const void *addr);
void point();                               //!< explicit preemption point
int spawn(const std::function<void()>& f);  //!< starts a controlled thread, returns its number

//! No preemption while one of these lives.
struct Off { Off(); ~Off(); };
//! Preemption again while one of these lives.
struct On { int saved; On(); ~On(); };
//! The calls under test in otherwise undisturbed code.
#define DO(...) ([&] { sched::On on_; return __VA_ARGS__; }())

}
#endif
