// Shared by all harnesses: reading operation scripts and writing ndjson traces.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <stdint.h>
#include <sys/time.h>
#include <string>
#include <unistd.h>
#include <vector>

namespace vh {

typedef std::vector<long long> Ints;

//! One operation of a script: a name and key=value arguments.
struct Op
{
  std::string name;
  std::map<std::string, std::string> kv;
  bool has(const std::string& k) const { return kv.count(k) != 0; }
  std::string raw(const std::string& k) const
  {
    std::map<std::string, std::string>::const_iterator it = kv.find(k);
    if (it == kv.end())
    {
      fprintf(stderr, "script: op %s lacks %s\n", name.c_str(), k.c_str());
      _exit(71);
    }
    return it->second;
  }
  long long i(const std::string& k) const { return atoll(raw(k).c_str()); }
  bool b(const std::string& k) const { return i(k) != 0; }
  std::string s(const std::string& k) const // %20 is a space
  {
    std::string r = raw(k), o;
    for (size_t p = 0; p < r.size(); ++p)
    {
      if (r.compare(p, 3, "%20") == 0) { o += ' '; p += 2; }
      else { o += r[p]; }
    }
    return o;
  }
  Ints ints(const std::string& k) const
  {
    Ints v;
    std::stringstream ss(raw(k));
    std::string t;
    while (std::getline(ss, t, ',')) { if (!t.empty()) v.push_back(atoll(t.c_str())); }
    return v;
  }
  std::string bytes(const std::string& k) const // comma separated byte values
  {
    Ints v = ints(k);
    std::string o;
    for (size_t p = 0; p < v.size(); ++p) { o += static_cast<char>(v[p]); }
    return o;
  }
};

inline bool parse(const std::string& line, Op& op)
{
  std::stringstream ss(line);
  std::string t;
  op.name.clear();
  op.kv.clear();
  if (!(ss >> op.name)) { return false; }
  while (ss >> t)
  {
    size_t e = t.find('=');
    if (e != std::string::npos) { op.kv[t.substr(0, e)] = t.substr(e + 1); }
  }
  return true;
}

inline std::string quote(const std::string& s)
{
  std::string o = "\"";
  for (size_t p = 0; p < s.size(); ++p)
  {
    unsigned char c = s[p];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else { o += c; }
  }
  return o + "\"";
}

//! A JSON record under construction.
struct J
{
  std::string o;
  J() : o("{") {}
  explicit J(const char *op) : o("{") { s("op", op); }
  void key(const char *k) { if (o.size() > 1) { o += ","; } o += "\""; o += k; o += "\":"; }
  J& s(const char *k, const std::string& v) { key(k); o += quote(v); return *this; }
  J& i(const char *k, long long v) { key(k); char b[32]; snprintf(b, 32, "%lld", v); o += b; return *this; }
  J& b(const char *k, bool v) { key(k); o += v ? "true" : "false"; return *this; }
  J& raw(const char *k, const std::string& v) { key(k); o += v; return *this; }
  J& bytes(const char *k, const std::string& v)
  {
    key(k); o += "[";
    for (size_t p = 0; p < v.size(); ++p) { char b[8]; snprintf(b, 8, "%s%u", p ? "," : "", (unsigned char)v[p]); o += b; }
    o += "]"; return *this;
  }
  template <typename C> J& ints(const char *k, const C& v)
  {
    key(k); o += "[";
    bool first = true;
    for (typename C::const_iterator it = v.begin(); it != v.end(); ++it)
    { char b[32]; snprintf(b, 32, "%s%lld", first ? "" : ",", (long long)*it); o += b; first = false; }
    o += "]"; return *this;
  }
  std::string str() const { return o + "}"; }
};

inline std::string jbytes(const std::string& v)
{
  std::string o = "[";
  for (size_t p = 0; p < v.size(); ++p) { char b[8]; snprintf(b, 8, "%s%u", p ? "," : "", (unsigned char)v[p]); o += b; }
  return o + "]";
}
inline std::string jlist(const std::vector<std::string>& v)
{
  std::string o = "[";
  for (size_t p = 0; p < v.size(); ++p) { if (p) o += ","; o += v[p]; }
  return o + "]";
}

//! 64 bit value as four 16 bit limbs, least significant first.
inline std::string limbs(uint64_t v)
{
  char b[64];
  snprintf(b, 64, "[%u,%u,%u,%u]", unsigned(v & 0xffff), unsigned((v >> 16) & 0xffff), unsigned((v >> 32) & 0xffff), unsigned((v >> 48) & 0xffff));
  return b;
}

//! Big number for the specification module Big: sign and base-10000 digits, least significant first.
inline std::string big(__int128 v)
{
  bool neg = v < 0;
  std::string o = std::string("{\"neg\":") + (neg ? "true" : "false") + ",\"d\":[";
  unsigned __int128 m = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  for (bool first = true; m; m /= 10000, first = false) { char b[16]; snprintf(b, 16, "%s%u", first ? "" : ",", unsigned(m % 10000)); o += b; }
  return o + "]}";
}

struct Trace
{
  FILE *f;
  Trace() : f(NULL) {}
  bool open(const char *name) { f = fopen(name, "w"); return f != NULL; }
  void emit(const J& j) { std::string t = j.str() + "\n"; fwrite(t.data(), 1, t.size(), f); fflush(f); }
};

inline Trace& trace() { static Trace t; return t; }

//! main() of a sequential harness: argv = script, trace.
template <typename F>
int drive(int argc, char **argv, F& f)
{
  if (argc < 3 || !trace().open(argv[argc - 1])) { fprintf(stderr, "usage: script trace\n"); return 71; }
  std::ifstream in(argv[argc - 2]);
  if (!in) { fprintf(stderr, "no script\n"); return 71; }
  std::string line;
  Op op;
  while (std::getline(in, line))
  {
    // An operation that burns 10 s of processor time is a hang (SIGPROF ends the process).
    struct itimerval t = { { 0, 0 }, { 10, 0 } };
    setitimer(ITIMER_PROF, &t, NULL);
    if (parse(line, op)) { f(op); }
  }
  return 0;
}

}
#endif
