// A file output in a directory of its own, with a clock of our own; without privileges.
#include "vfork.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/FileLogOutput.h"
#include "icl_core_logging/Logging.h"
#include <dirent.h>
#include <grp.h>
#include <map>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <zlib.h>
#include <ftw.h>
using namespace vh;
namespace lg = icl_core::logging;

static bool g_fake;
static struct timespec g_now;
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept
{
  if (g_fake && c == CLOCK_REALTIME) { *ts = g_now; return 0; }
  return int(syscall(SYS_clock_gettime, c, ts));
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) { *t = ts.tv_sec; }
  return ts.tv_sec;
}

static std::string g_root;

struct Dir
{
  std::string path;
  std::map<ino_t, time_t> stamp;   //!< the time stamp we gave the file
  static void put(const std::string& f, time_t t)
  {
    struct timespec ts[2] = { { t, 0 }, { t, 0 } };
    utimensat(AT_FDCWD, f.c_str(), ts, 0);
  }
  //! What has been written since the last call is written now; what is there is listed.
  std::string list()
  {
    std::vector<std::string> names, l;
    DIR *d = opendir(path.c_str());
    for (struct dirent *e; d && (e = readdir(d)); ) { if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") { names.push_back(e->d_name); } }
    if (d) { closedir(d); }
    std::sort(names.begin(), names.end());
    for (size_t i = 0; i < names.size(); ++i)
    {
      std::string f = path + "/" + names[i], c;
      struct stat s;
      if (stat(f.c_str(), &s)) { continue; }
      bool dir = S_ISDIR(s.st_mode);
      if (!dir)
      {
        if (!stamp.count(s.st_ino) || stamp[s.st_ino] != s.st_mtime) { put(f, g_now.tv_sec); stamp[s.st_ino] = g_now.tv_sec; }
        gzFile g = gzopen(f.c_str(), "rb");
        char b[4096];
        for (int n; g && (n = gzread(g, b, sizeof b)) > 0; ) { c.append(b, n); }
        if (g) { gzclose(g); }
      }
      l.push_back("{\"n\":" + jbytes(names[i]) + ",\"c\":" + jbytes(c) + ",\"d\":" + (dir ? "true" : "false") + "}");
    }
    return jlist(l);
  }
};

static void episode(const std::vector<Op>& ops)
{
  Capture out;
  char tmpl[200];
  snprintf(tmpl, sizeof tmpl, "%s/d.XXXXXX", g_root.c_str());
  Dir dir;
  dir.path = mkdtemp(tmpl);
  if (geteuid() == 0)
  {
    if (chown(tmpl, 65534, 65534)) { _exit(71); }
    if (setgroups(0, NULL)) {}
    if (setgid(65534) || setuid(65534)) { _exit(71); }
  }
  if (chdir(tmpl)) { _exit(71); }
  setenv("TZ", "UTC", 1);
  tzset();
  setenv("VFDIR", tmpl, 1);
  setenv("HOME", tmpl, 1);
  g_now.tv_sec = ops[0].i("s");
  g_fake = true;
  lg::initialize();
  lg::LogOutputStream *o = NULL;
  int n = 0;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    const Op& op = ops[i];
    J j(op.name.c_str());
    if (op.name == "new") { j.i("s", op.i("s")); }
    else if (op.name == "open")
    {
      std::string p = "/Vf" + std::to_string(++n), name = op.bytes("n"), how = op.raw("how");
      std::string file = how == "abs" ? dir.path + "/" + name : how == "env" ? "${VFDIR}/" + name : how == "home" ? "~/" + name : how == "dot" ? "./" + name : name;
      icl_core::config::setValue<icl_core::String>(p + "/Format", "~E");
      icl_core::config::setValue<icl_core::String>(p + "/FileName", file);
      // what has its default may be left out
      if (op.b("rot") || op.b("full")) { icl_core::config::setValue<icl_core::String>(p + "/Rotate", op.b("rot") ? "yes" : "no"); }
      if (op.i("older") >= 0) { icl_core::config::setValue<icl_core::String>(p + "/DeleteOlderThan", std::to_string(op.i("older"))); }
      if (op.b("zip") || op.b("full")) { icl_core::config::setValue<icl_core::String>(p + "/Zip", op.b("zip") ? "yes" : "no"); }
      if (!op.b("flush") || op.b("full")) { icl_core::config::setValue<icl_core::String>(p + "/Flush", op.b("flush") ? "yes" : "no"); }
      o = lg::FileLogOutput::create("vf", p, lg::eLL_TRACE);
      j.s("how", how).bytes("n", name).b("rot", op.b("rot")).i("older", op.i("older")).b("zip", op.b("zip")).b("flush", op.b("flush"));
    }
    else if (op.name == "log")
    {
      std::string t = op.bytes("t");
      for (int k = 0; k < op.i("k"); ++k) { o->push(lg::eLL_INFO, "s", "f", 1, "", "", "", t.c_str()); }
      o->start();
      o->shutdown();
      j.bytes("t", t).i("k", op.i("k"));
    }
    else if (op.name == "close") { delete o; o = NULL; }
    else if (op.name == "tick") { g_now.tv_sec = op.i("s"); j.i("s", op.i("s")); }
    else if (op.name == "put")
    {
      std::string f = dir.path + "/" + op.bytes("n"), t = op.bytes("t");
      if (op.b("z")) { gzFile g = gzopen(f.c_str(), "wb"); gzwrite(g, t.data(), t.size()); gzclose(g); }
      else { FILE *g = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), g); fclose(g); }
      Dir::put(f, op.i("m"));
      struct stat s;
      stat(f.c_str(), &s);
      dir.stamp[s.st_ino] = op.i("m");
      j.bytes("n", op.bytes("n")).bytes("t", t).i("m", op.i("m"));
    }
    else if (op.name == "dir") { mkdir((dir.path + "/" + op.bytes("n")).c_str(), 0755); j.bytes("n", op.bytes("n")); }
    else { _exit(71); }
    j.raw("dir", dir.list());
    trace().emit(j);
  }
  _exit(0);
}

static int gone(const char *f, const struct stat *, int, struct FTW *) { remove(f); return 0; }

int main(int argc, char **argv)
{
  char root[] = "/tmp/vf_filelog.XXXXXX";
  if (!mkdtemp(root)) { return 71; }
  chmod(root, 0755);
  g_root = root;
  int rc = drive_forked(argc, argv, episode);
  nftw(root, gone, 16, FTW_DEPTH | FTW_PHYS);
  return rc;
}
