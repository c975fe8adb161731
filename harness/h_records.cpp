// Outputs to a database and to a receiver of datagrams, in a directory of its own, with a clock of our own; without privileges.
#include "vfork.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/SQLiteLogOutput.h"
#include "icl_core_logging/UdpLogOutput.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <grp.h>
#include <netinet/in.h>
#include <sqlite3.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ftw.h>
using namespace vh;
namespace lg = icl_core::logging;

static bool g_fake;
static struct timespec g_now;
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept
{
  if (g_fake && c == CLOCK_REALTIME) { *ts = g_now; return 0; }
  return int(syscall(SYS_clock_gettime, c, ts));
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) { *t = ts.tv_sec; }
  return ts.tv_sec;
}

static std::string g_root;

static std::string column(sqlite3_stmt *q, int i)
{
  const char *t = reinterpret_cast<const char *>(sqlite3_column_text(q, i));
  return t ? std::string(t, sqlite3_column_bytes(q, i)) : std::string("NULL");
}

//! The rows of a database.
static std::string rows(const std::string& f)
{
  std::vector<std::string> l;
  sqlite3 *db = NULL;
  sqlite3_stmt *q = NULL;
  if (sqlite3_open_v2(f.c_str(), &db, SQLITE_OPEN_READONLY, NULL) == SQLITE_OK
      && sqlite3_prepare_v2(db, "SELECT app_id, timestamp, log_stream, log_level, filename, line, class_name, object_name, function_name, message FROM log_entries ORDER BY seq", -1, &q, NULL) == SQLITE_OK)
  {
    while (sqlite3_step(q) == SQLITE_ROW)
    {
      static const char *const NAMES[] = { "app", "w", "s", "l", "f", "n", "c", "o", "d", "t" };
      std::string r = "{";
      for (int i = 0; i < 10; ++i)
      {
        std::string v = i == 5 ? std::to_string(sqlite3_column_int(q, i)) : jbytes(column(q, i));
        r += (i ? ",\"" : "\"") + std::string(NAMES[i]) + "\":" + v;
      }
      l.push_back(r + "}");
    }
    sqlite3_finalize(q);
  }
  sqlite3_close(db);
  return jlist(l);
}
static std::string list(const std::string& path)
{
  std::vector<std::string> names, l;
  DIR *d = opendir(path.c_str());
  for (struct dirent *e; d && (e = readdir(d)); )
  {
    std::string n = e->d_name;
    struct stat s;
    if (stat((path + "/" + n).c_str(), &s) || S_ISDIR(s.st_mode) || (n.size() > 8 && n.substr(n.size() - 8) == "-journal")) { continue; }
    names.push_back(n);
  }
  if (d) { closedir(d); }
  std::sort(names.begin(), names.end());
  for (size_t i = 0; i < names.size(); ++i) { l.push_back("{\"n\":" + jbytes(names[i]) + ",\"r\":" + rows(path + "/" + names[i]) + "}"); }
  return jlist(l);
}
//! The datagrams that have arrived.
static std::string received(int s)
{
  std::vector<std::string> l;
  static char b[70000];
  for (ssize_t n; s >= 0 && (n = recv(s, b, sizeof b, MSG_DONTWAIT)) >= 0; ) { l.push_back(jbytes(std::string(b, n))); }
  return jlist(l);
}

static void episode(const std::vector<Op>& ops)
{
  Capture out;
  char tmpl[200];
  snprintf(tmpl, sizeof tmpl, "%s/d.XXXXXX", g_root.c_str());
  std::string dir = mkdtemp(tmpl);
  if (geteuid() == 0)
  {
    if (chown(tmpl, 65534, 65534)) { _exit(71); }
    if (setgroups(0, NULL)) {}
    if (setgid(65534) || setuid(65534)) { _exit(71); }
  }
  if (chdir(tmpl)) { _exit(71); }
  setenv("TZ", "UTC", 1);
  tzset();
  int receiver = socket(AF_INET, SOCK_DGRAM, 0);
  struct sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t len = sizeof a;
  int room = 1 << 22;
  setsockopt(receiver, SOL_SOCKET, SO_RCVBUF, &room, sizeof room);
  if (receiver < 0 || bind(receiver, reinterpret_cast<struct sockaddr *>(&a), len) || getsockname(receiver, reinterpret_cast<struct sockaddr *>(&a), &len)) { _exit(71); }
  g_now.tv_sec = ops[0].i("s");
  g_fake = true;
  lg::initialize();
  lg::LogOutputStream *o = NULL;
  int n = 0;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    const Op& op = ops[i];
    J j(op.name.c_str());
    if (op.name == "new") { j.i("s", op.i("s")); }
    else if (op.name == "make")
    {
      delete o;
      std::string p = "/Vf" + std::to_string(++n), k = op.raw("k"), sys = op.bytes("sys");
      if (k == "udp")
      {
        icl_core::config::setValue<icl_core::String>(p + "/Host", "127.0.0.1");
        icl_core::config::setValue<icl_core::String>(p + "/Port", std::to_string(ntohs(a.sin_port)));
        icl_core::config::setValue<icl_core::String>(p + "/SystemName", sys);
        o = lg::UdpLogOutput::create("vf", p, lg::LogLevel(op.i("lev")));
      }
      else
      {
        icl_core::config::setValue<icl_core::String>(p + "/FileName", n % 2 ? "l.db" : dir + "/l.db");
        if (op.b("rot") || n % 3) { icl_core::config::setValue<icl_core::String>(p + "/Rotate", op.b("rot") ? "yes" : "no"); }
        o = lg::SQLiteLogOutput::create("vf", p, lg::LogLevel(op.i("lev")));
      }
      j.s("k", k).bytes("sys", sys).i("lev", op.i("lev")).b("rot", op.b("rot"));
    }
    else if (op.name == "push")
    {
      std::string s = op.bytes("s"), c = op.bytes("c"), ob = op.bytes("o"), d = op.bytes("d"), f = op.bytes("f"), t = op.bytes("t");
      o->push(lg::LogLevel(op.i("l")), s.c_str(), f.c_str(), size_t(op.i("n")), c.c_str(), ob.c_str(), d.c_str(), t.c_str());
      j.i("l", op.i("l")).bytes("s", s).bytes("c", c).bytes("o", ob).bytes("d", d).bytes("f", f).i("n", op.i("n")).bytes("t", t);
    }
    else if (op.name == "sync")
    {
      o->start();
      o->shutdown();
      j.raw("got", received(receiver)).raw("dbs", list(dir));
    }
    else if (op.name == "tick") { g_now.tv_sec = op.i("s"); g_now.tv_nsec = op.i("n"); j.i("s", op.i("s")).i("n", op.i("n")); }
    else if (op.name == "dir") { mkdir((dir + "/" + op.bytes("n")).c_str(), 0755); j.bytes("n", op.bytes("n")); }
    else { _exit(71); }
    trace().emit(j);
  }
  _exit(0);
}

static int gone(const char *f, const struct stat *, int, struct FTW *) { remove(f); return 0; }

int main(int argc, char **argv)
{
  char root[] = "/tmp/vf_records.XXXXXX";
  if (!mkdtemp(root)) { return 71; }
  chmod(root, 0755);
  g_root = root;
  int rc = drive_forked(argc, argv, episode);
  nftw(root, gone, 16, FTW_DEPTH | FTW_PHYS);
  return rc;
}
