// Episodes in processes of their own, several at a time; what they print is captured.
#ifndef VFORK_H
#define VFORK_H
#include "vh.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>

namespace vh {

//! Captures what goes to standard output and error (file descriptors 1 and 2) from now on.
struct Capture
{
  int fd;
  Capture() : fd(memfd_create("out", 0)) { fcntl(fd, F_SETFL, O_APPEND); fflush(NULL); if (getenv("VF_NOCAPTURE")) { return; } dup2(fd, 1); dup2(fd, 2); }
  std::string text()
  {
    fflush(NULL);
    std::cout.flush();
    std::string s;
    char b[4096];
    off_t p = 0;
    for (ssize_t n; (n = pread(fd, b, sizeof b, p)) > 0; p += n) { s.append(b, n); }
    return s;
  }
};

//! main() of a harness whose episodes need a process each: f(episode) writes events with trace().emit().
template <typename F>
int drive_forked(int argc, char **argv, F f, int slices = 8, int seconds = 20)
{
  std::ifstream in(argv[argc - 2]);
  if (argc < 3 || !in) { fprintf(stderr, "usage: script trace\n"); return 71; }
  std::vector<std::vector<Op> > eps;
  std::string line;
  Op op;
  while (std::getline(in, line))
  {
    if (!parse(line, op)) { continue; }
    if (op.name == "new") { eps.push_back(std::vector<Op>()); }
    eps.back().push_back(op);
  }
  std::vector<pid_t> pids;
  std::vector<std::string> parts;
  for (int s = 0; s < slices; ++s)
  {
    parts.push_back(std::string(argv[argc - 1]) + ".s" + std::to_string(s));
    pid_t p = fork();
    if (p) { pids.push_back(p); continue; }
    int hangs = 0;
    for (size_t i = eps.size() * s / slices, to = eps.size() * (s + 1) / slices; i < to; ++i)
    {
      pid_t c = fork();
      if (c == 0)
      {
        trace().f = fopen(parts[s].c_str(), "a");
        alarm(seconds);
        f(eps[i]);
        exit(0);
      }
      int st = 0;
      waitpid(c, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { continue; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 71) { _exit(71); }
      FILE *o = fopen(parts[s].c_str(), "a");
      char b[64];
      snprintf(b, 64, WIFSIGNALED(st) ? "signal %d" : "exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
      fprintf(o, "%s\n", J(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash").s("info", b).i("episode", i).str().c_str());
      fclose(o);
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hangs == 2) { break; }   // enough is known
    }
    _exit(0);
  }
  int rc = 0;
  for (size_t i = 0; i < pids.size(); ++i) { int st; waitpid(pids[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 71; } }
  FILE *o = fopen(argv[argc - 1], "w");
  for (size_t i = 0; i < parts.size(); ++i)
  {
    std::ifstream p(parts[i].c_str());
    while (std::getline(p, line)) { fprintf(o, "%s\n", line.c_str()); }
    unlink(parts[i].c_str());
  }
  fclose(o);
  return rc;
}

}
#endif
