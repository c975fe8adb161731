// Threads that log, and outputs that write, under the controlled scheduler.
#include "conc.h"
#include "conc_log.h"
#include <sstream>
#include <unistd.h>
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_logging/LogStream.h"
#include "icl_core_logging/ThreadStream.h"

using namespace conc;
namespace lg = icl_core::logging;

static thread_local int me = 0;   // number of the calling thread of the script; 0: an output's own
static std::vector<bool> held;
static const char *FORMATS[2] = { "~S ~L ~(O~:D ~E", "[~S ~L ~(O~:D ~E]" };

struct Rec : lg::LogOutputStream
{
  int o;
  Rec(int o_, int level, bool worker) : lg::LogOutputStream("rec", "/None", lg::LogLevel(level), worker), o(o_) { changeLogFormat(FORMATS[0]); }
  void say(const char *op) { J j(op); j.i("o", o).i("th", me); log(j); }
  virtual void onStart() { sched::Off off; say("hello"); }
  virtual void onShutdown() { sched::Off off; say("bye"); }
  virtual void pushImpl(const std::string& line)
  {
    sched::Off off;
    J j("in");
    std::string text = line;
    // the newline is the end of the text
    size_t nl = text.find('\n');
    if (nl != std::string::npos) { text.erase(nl, 1); }
    j.i("o", o).i("th", me).s("x", text);
    log(j);
    { sched::On on; sched::point(); }
    while (held[o]) { sched::park(&held); }
    say("out");
  }
};

static std::vector<Rec *> outs;
static std::vector<lg::LogStream *> streams;
static std::vector<int> count;

struct H : Harness
{
  bool over;
  static std::string object(int th) { return "ob" + std::to_string(th); }
  void reset(const Op& o, J& j)
  {
    over = false;
    std::vector<long long> w = o.ints("wk"), l = o.ints("lv"), a = o.ints("at");   // at: outputs, 0 between two streams
    outs.assign(1, NULL);
    held.assign(w.size() + 1, false);
    for (size_t k = 0; k < w.size(); ++k) { outs.push_back(new Rec(k + 1, l[k], w[k])); }
    streams.assign(1, NULL);
    std::string at = "[[";
    streams.push_back(new lg::LogStream("s1", lg::eLL_TRACE));
    bool fresh = true;
    for (size_t k = 0; k < a.size(); ++k)
    {
      if (a[k] == 0) { streams.push_back(new lg::LogStream("s" + std::to_string(streams.size()), lg::eLL_TRACE)); at += "],["; fresh = true; }
      else { streams.back()->addOutputStream(outs[a[k]]); at += (fresh ? "" : ",") + std::to_string(a[k]); fresh = false; }
    }
    count.assign(o.i("th") + 1, 0);
    std::string wk = "[", lv = "[";
    for (size_t k = 0; k < w.size(); ++k) { wk += (k ? "," : "") + std::string(w[k] ? "true" : "false"); lv += (k ? "," : "") + std::to_string(l[k]); }
    j.raw("wk", wk + "]").raw("lv", lv + "]").raw("at", at + "]]");
  }
  // the owner alone starts and shuts down
  bool applicable(int, const Op& o) { return !over || o.raw("f") == "shutdown" || o.raw("f") == "free"; }
  static int size(const Op& o) { return o.has("n") ? int(o.i("n")) : 3; }
  void call(int th, const Op& o, J& j)
  {
    std::string f = o.raw("f"), x;
    if (f == "log")
    {
      ++count[th];
      x = streams[o.i("s")]->name() + " " + lg::logLevelDescription(lg::LogLevel(o.i("lv"))) + " (" + object(th) + "):log " + std::to_string(th) + "." + std::to_string(count[th]) + std::string(size(o), 'a' + th);
    }
    j.i("s", o.has("s") ? o.i("s") : 0).i("o", o.has("o") ? o.i("o") : 0).i("lv", o.has("lv") ? o.i("lv") : 0).s("x", x);
  }
  static void log(lg::LogStream& s, lg::LogLevel level, int th, int k, const std::string& tail)
  {
    SLOGGING_LOG_CO(s, level, H, object(th).c_str(), th << "." << k << tail << lg::endl);
  }
  void exec(int th, const Op& o, J&)
  {
    std::string f = o.raw("f");
    me = th;
    if (f == "log") { std::string tail(size(o), 'a' + th); lg::LogStream& s = *streams[o.i("s")]; int k = count[th]; sched::On on; log(s, lg::LogLevel(o.i("lv")), th, k, tail); }
    else if (f == "attach") { DO(streams[o.i("s")]->addOutputStream(outs[o.i("o")])); }
    else if (f == "detach") { DO(streams[o.i("s")]->removeOutputStream(outs[o.i("o")])); }
    else if (f == "format") { DO(outs[o.i("o")]->changeLogFormat(FORMATS[o.i("lv")])); }
    else if (f == "start") { DO(outs[o.i("o")]->start()); }
    else if (f == "shutdown") { DO(outs[o.i("o")]->shutdown()); }
    else if (f == "hold") { held[o.i("o")] = true; }
    else if (f == "free") { held[o.i("o")] = false; sched::wake(&held); }
    else { _exit(71); }
  }
  void one(const char *f, int o) { Op op; op.name = "do"; op.kv["f"] = f; op.kv["o"] = std::to_string(o); perform(0, op); }
  void settle()
  {
    over = true;
    for (size_t k = 1; k < outs.size(); ++k) { one("free", k); }
    sched::run_all();
    sched::log("{\"op\":\"quiet\"}");
    for (size_t k = 1; k < outs.size(); ++k) { one("shutdown", k); }
  }
  void fini()
  {
    for (size_t k = 1; k < streams.size(); ++k) { delete streams[k]; }
    for (size_t k = 1; k < outs.size(); ++k) { delete outs[k]; }
  }
};

int main(int argc, char **argv) { no_messages(); H h; return conc::main(argc, argv, h); }
