// The logging framework: set-up, levels, connections, and who gets a message. One process per episode.
#define _IC_DEBUG_
#define ICL_CORE_LOCAL_LOGGING
#include "h_logging_say.h"
#include "h_logging_streams.h"
#include "vfork.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/LogOutputStream.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <string.h>
#include <memory>
using namespace vh;
namespace lg = icl_core::logging;
REGISTER_LOG_STREAM(A)
REGISTER_LOG_STREAM(B)

// ------------------------------------------------------------------ the statements
namespace s { void say(lg::LogStream& st, Said& r, int l, bool f, const std::string& w, const std::string& t) { r.line = __LINE__; VF_SAY(SLOGGING, st) } }
namespace la { void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(LOGGING, A) } }
namespace lb { void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(LOGGING, B) } }
namespace ld { void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(LOGGING, lg::Default) } }
namespace ka { void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(LLOGGING, A) } }
namespace kb { void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(LLOGGING, B) } }
struct Member
{
  bool on;
  bool Debug() const { return on; }
  struct InA;
};
namespace ma { struct M : Member { void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(MLOGGING, A) } }; }
namespace mb { struct M : Member { void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(MLOGGING, B) } }; }
namespace release {
namespace s { void say(lg::LogStream& st, Said& r, int l, bool f, const std::string& w, const std::string& t); }
namespace a { void say VF_SIGNATURE; }
namespace b { void say VF_SIGNATURE; }
namespace c { void say VF_SIGNATURE; }
}

// ------------------------------------------------------------------ outputs and streams of our own
static std::map<std::string, lg::LogOutputStream *> recs; // live outputs by name
struct Rec : lg::LogOutputStream
{
  Rec(const icl_core::String& name, const icl_core::String& prefix, lg::LogLevel l, bool worker) : LogOutputStream(name, prefix, l, worker) { recs[name] = this; }
  virtual ~Rec() { recs.erase(name()); }
  virtual void pushImpl(const icl_core::String& line) { if (::write(1, line.data(), line.size()) < 0) { _exit(71); } }
  static lg::LogOutputStream *plain(const icl_core::String& name, const icl_core::String& prefix, lg::LogLevel l) { return new Rec(name, prefix, l, false); }
  static lg::LogOutputStream *worker(const icl_core::String& name, const icl_core::String& prefix, lg::LogLevel l) { return new Rec(name, prefix, l, true); }
};
REGISTER_LOG_OUTPUT_STREAM(Rec, &Rec::plain)
REGISTER_LOG_OUTPUT_STREAM(RecW, &Rec::worker)

static std::map<std::string, lg::LogStream *> owned; // our own streams, as long as they live
struct Own : lg::LogStream
{
  Own(const std::string& n, lg::LogLevel l) : LogStream(n, l) { owned[n] = this; }
  explicit Own(const std::string& n) : LogStream(n) { owned[n] = this; }
  ~Own() { owned.erase(name()); }
  static lg::LogStream *create() { return owned.count("C") ? owned["C"] : new Own("C"); }
};

// ------------------------------------------------------------------ observing
//! Waits until there was an instant at which every other thread of the process slept.
static void settle()
{
  typedef std::map<int, std::string> Switches; // how often each thread went to sleep
  Switches before;
  bool slept = false;                          // all of them, when last looked at
  for (int n = 0; n < 200000; ++n)
  {
    Switches now;
    bool all = true;
    int self = int(gettid());
    DIR *d = opendir("/proc/self/task");
    for (struct dirent *x; (x = readdir(d));)
    {
      int tid = atoi(x->d_name);
      if (tid == 0 || tid == self) { continue; }
      char buf[4096];
      int fd = ::open((std::string("/proc/self/task/") + x->d_name + "/status").c_str(), O_RDONLY);
      ssize_t len = fd < 0 ? -1 : ::read(fd, buf, sizeof(buf) - 1);
      if (fd >= 0) { ::close(fd); }
      if (len <= 0) { all = false; continue; }
      buf[len] = 0;
      const char *state = strstr(buf, "\nState:\t"), *sw = strstr(buf, "\nvoluntary_ctxt_switches:");
      if (!state || state[8] != 'S') { all = false; }
      now[tid] = sw ? sw : "";
    }
    closedir(d);
    // nobody ran between the two looks
    if (all && slept && now == before) { return; }
    slept = all;
    before = now;
    if (!all) { usleep(20); }
  }
}

static size_t read_so_far;
static Capture *cap;
static std::string base(const std::string& p) { return p.substr(p.rfind('/') + 1); }
//! What came out since the last time: the log lines go to got.
static std::string news(std::vector<std::string>& got)
{
  settle();
  std::string all = cap->text(), now = all.substr(read_so_far), line;
  read_so_far = all.size();
  std::stringstream in(now);
  while (std::getline(in, line))
  {
    if (line.compare(0, 1, "@")) { continue; }
    std::vector<std::string> v;
    std::stringstream ls(line.substr(1) + "|");
    for (std::string x; std::getline(ls, x, '|');) { v.push_back(x); }
    if (v.size() != 9) { v.resize(9, "?"); }
    got.push_back(J().s("o", v[0]).s("s", v[1]).s("l", v[2]).s("c", v[3]).s("b", v[4]).s("f", v[5]).s("file", base(v[6])).i("line", atoi(v[7].c_str())).s("t", v[8]).str());
  }
  return now;
}

static const char *FORMAT = "|~S|~L|~C|~O|~D|~F|~G|~E";
static std::unique_ptr<lg::LifeCycle> life;
static std::map<std::string, bool> live; // the streams with a static instance: used on objects only as long as they live

static lg::LogStream& stream(const std::string& n)
{
  if (n == "A") { return A::instance(); }
  if (n == "B") { return B::instance(); }
  if (n == "Default") { return lg::Default::instance(); }
  if (n == "QuickDebug") { return lg::QuickDebug::instance(); }
  if (n == "Nirwana") { return lg::Nirwana::instance(); }
  if (!owned.count(n)) { fprintf(stderr, "no stream %s\n", n.c_str()); _exit(71); }
  return *owned[n];
}

static void print_parsed(const std::string& text, J& j)
{
  std::vector<std::string> o, s;
  std::stringstream in(text);
  int part = 0;
  for (std::string line; std::getline(in, line);)
  {
    if (line == "  Log output streams:") { part = 1; continue; }
    if (line == "  Log streams:") { part = 2; continue; }
    if (part == 1)
    {
      size_t p = line.rfind(" : ");
      if (line.compare(0, 4, "    ") || p == std::string::npos) { o.push_back(J().s("n", "?").s("l", "?").str()); continue; }
      o.push_back(J().s("n", line.substr(4, p - 4)).s("l", line.substr(p + 3)).str());
    }
    if (part == 2)
    {
      size_t p = line.find(" -> ");
      if (line.compare(0, 4, "    ") || p == std::string::npos) { s.push_back(J().s("n", "?").raw("o", "[]").str()); continue; }
      std::vector<std::string> names;
      std::stringstream ns(line.substr(p + 4));
      for (std::string n; ns >> n;) { names.push_back("\"" + n + "\""); }
      s.push_back(J().s("n", line.substr(4, p - 4)).raw("o", jlist(names)).str());
    }
  }
  j.raw("outs", jlist(o)).raw("strs", jlist(s));
}

static void episode(const std::vector<Op>& ops)
{
  cap = new Capture;
  int streams = 0;
  for (size_t n = 0; n < ops.size(); ++n)
  {
    const Op& op = ops[n];
    const std::string& f = op.name;
    J j(f.c_str());
    bool print = false;
    if (f == "new")
    {
      icl_core::config::setValue("/IclCore/Logging/Default/Format", std::string("@*") + FORMAT + "");
    }
    else if (f == "conf")
    {
      std::string e = op.raw("e"), i = op.raw("i"), v = op.s("v"), p = "/IclCore/Logging/OutputStream" + e;
      if (i == "type") { icl_core::config::setValue(p + "/Format", "@" + e + FORMAT); }
      icl_core::config::setValue(p + (i == "type" ? "/OutputStreamName" : i == "name" ? "/Name" : i == "level" ? "/LogLevel" : "/LogStream" + std::to_string(++streams)), v);
      j.s("e", e).s("i", i).s("v", v);
    }
    else if (f == "sconf")
    {
      std::string e = op.raw("e"), i = op.raw("i"), v = op.s("v");
      icl_core::config::setValue("/IclCore/Logging/LogStream" + e + (i == "name" ? "/Name" : "/LogLevel"), v);
      j.s("e", e).s("i", i).s("v", v);
    }
    else if (f == "init")
    {
      bool ok = true;
      std::string arg = op.raw("arg"), how = op.raw("how");
      if (how == "plain") { lg::initialize(); }
      else if (how == "manager") { lg::LoggingManager::instance().initialize(); }
      else
      {
        std::vector<std::string>& keep = *new std::vector<std::string>; // as the arguments of a program are
        std::vector<char *>& argv = *new std::vector<char *>;
        keep.push_back("prog");
        if (arg != "-" && op.b("long")) { keep.push_back("--log-level=" + arg); }
        else if (arg != "-") { keep.push_back("-l"); keep.push_back(arg); }
        for (size_t k = 0; k < keep.size(); ++k) { argv.push_back(&keep[k][0]); }
        argv.push_back(NULL);
        int argc = int(keep.size());
        if (how == "life" && !life) { life.reset(new lg::LifeCycle(argc, &argv[0])); }
        else { ok = lg::initialize(argc, &argv[0]); }
      }
      j.s("arg", arg).b("ok", ok && lg::LoggingManager::instance().initialized());
    }
    else if (f == "configure") { lg::LoggingManager::instance().configure(); }
    else if (f == "shutdown")
    {
      if (life) { life.reset(); }
      else { lg::shutdown(); }
    }
    else if (f == "active") { stream(op.raw("s")).setActive(op.b("b")); j.s("s", op.raw("s")).b("b", op.b("b")); }
    else if (f == "setall")
    {
      lg::LogLevel l = lg::LogLevel(op.i("l"));
      if (op.b("mgr")) { lg::LoggingManager::instance().setLogLevel(l); } else { lg::setLogLevel(l); }
      j.i("l", l);
    }
    else if (f == "setout")
    {
      if (!recs.count(op.raw("o"))) { _exit(71); }
      recs[op.raw("o")]->setLogLevel(lg::LogLevel(op.i("l")));
      j.s("o", op.raw("o")).i("l", op.i("l"));
    }
    else if (f == "link" || f == "unlink")
    {
      if (!recs.count(op.raw("o"))) { _exit(71); }
      if (f == "link") { stream(op.raw("s")).addOutputStream(recs[op.raw("o")]); } else { stream(op.raw("s")).removeOutputStream(recs[op.raw("o")]); }
      j.s("s", op.raw("s")).s("o", op.raw("o"));
    }
    else if (f == "drop")
    {
      std::string o = op.raw("o");
      lg::LogOutputStream *p = recs.count(o) ? recs[o] : NULL;
      if (p) { lg::LoggingManager::instance().removeLogOutputStream(p); p->shutdown(); delete p; }
      j.s("o", o).b("found", p != NULL);
    }
    else if (f == "mine")
    {
      std::string o = op.raw("o");
      icl_core::config::setValue("/mine/" + o + "/Format", "@" + o + FORMAT);
      lg::LogOutputStream *p = new Rec(o, "/mine/" + o, lg::LogLevel(op.i("l")), op.b("worker"));
      p->start();
      j.s("o", o).i("l", op.i("l"));
    }
    else if (f == "own")
    {
      lg::LoggingManager::instance().registerLogStream(new Own(op.raw("s"), lg::LogLevel(op.i("l"))));
      j.s("s", op.raw("s")).i("l", op.i("l"));
    }
    else if (f == "declare") { lg::LoggingManager::instance().registerLogStream("C", &Own::create); j.s("s", "C"); }
    else if (f == "look")
    {
      std::string s = op.raw("s");
      bool l = owned.count(s) != 0;
      j.s("s", s).b("live", l).b("init", lg::LoggingManager::instance().initialized()).s("n", l ? owned[s]->name() : "").i("lev", l ? owned[s]->getLogLevel() : 0).i("ini", l ? owned[s]->initialLogLevel() : 0).b("act", l && owned[s]->isActive());
    }
    else if (f == "slook") // only while it lives
    {
      lg::LogStream& st = stream(op.raw("s"));
      j = J("look");
      j.s("s", op.raw("s")).b("live", true).b("init", lg::LoggingManager::instance().initialized()).s("n", st.name()).i("lev", st.getLogLevel()).i("ini", st.initialLogLevel()).b("act", st.isActive());
    }
    else if (f == "olook")
    {
      bool l = recs.count(op.raw("o")) != 0;
      j.s("o", op.raw("o")).b("live", l).i("lev", l ? recs[op.raw("o")]->getLogLevel() : 0);
    }
    else if (f == "print")
    {
      print = true;
      std::vector<std::string> got;
      news(got);
      lg::LoggingManager::instance().printConfiguration();
    }
    else if (f == "log")
    {
      std::string st = op.raw("s"), fam = op.raw("f"), w = op.raw("w") == "-" ? "" : op.raw("w"), t = op.raw("t");
      int l = int(op.i("l"));
      bool p = op.b("p");
      Said r = { 0, 0 };
      bool a = st == "A";
      const char *file = "h_logging.cpp";
      if (fam == "S") { s::say(stream(st), r, l, p, w, t); }
      else if (fam == "L") { st == "Default" ? ld::say(r, l, p, w, t) : a ? la::say(r, l, p, w, t) : lb::say(r, l, p, w, t); }
      else if (fam == "M" || fam == "q") { ma::M x; x.on = fam == "M"; mb::M y; y.on = x.on; if (a) { x.say(r, l, p, w, t); } else { y.say(r, l, p, w, t); } }
      else if (fam == "K") { a ? ka::say(r, l, p, w, t) : kb::say(r, l, p, w, t); }
      else
      {
        file = "h_logging_release.cpp";
        if (fam == "k") { release::a::say(r, l, p, w, t); }
        else if (fam == "D") { a ? release::c::say(r, l, p, w, t) : release::b::say(r, l, p, w, t); }
        else { _exit(71); }
      }
      std::vector<std::string> got;
      std::string text = news(got);
      j.s("s", st).s("f", fam).s("w", w).s("t", t).i("l", l).i("ev", r.evaluated).s("fn", "say").s("file", file).i("line", r.line)
        .b("warn", text.find("WARNING: Logging Instance is null") != std::string::npos).raw("got", jlist(got));
      trace().emit(j);
      continue;
    }
    else { _exit(71); }
    std::vector<std::string> got;
    std::string text = news(got);
    if (print) { print_parsed(text, j); }
    j.raw("got", jlist(got));
    trace().emit(j);
  }
  lg::shutdown();
  std::map<std::string, lg::LogOutputStream *> rest = recs;
  for (std::map<std::string, lg::LogOutputStream *>::iterator it = rest.begin(); it != rest.end(); ++it) { it->second->shutdown(); delete it->second; }
}

int main(int argc, char **argv) { return drive_forked(argc, argv, episode); }
