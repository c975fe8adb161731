#include "vh.h"
#include "icl_core/StringHelper.h"
#include "icl_core/Convert.h"
using namespace vh;
using namespace icl_core;

static std::vector<std::string> pieces(const std::string& t) // pieces separated by ';', bytes by ','
{
  std::vector<std::string> r;
  std::stringstream ss(t);
  std::string x;
  while (std::getline(ss, x, ';')) { Op o; o.kv["b"] = x; r.push_back(o.bytes("b")); }
  return r;
}
static std::string jl(const std::vector<std::string>& v)
{
  std::vector<std::string> r;
  for (size_t i = 0; i < v.size(); ++i) { r.push_back(jbytes(v[i])); }
  return jlist(r);
}
//! An exactly allocated copy: reading outside of it is reported.
static std::string tight(const std::string& s) { std::string r(s); r.reserve(s.size() + 40); r.shrink_to_fit(); return r; }

template <typename T> void number(J& j, long long v, size_t w, char c)
{
  T t = T(v);
  j.raw("v", big((__int128)t)).bytes("r", stringify<T>(t)).bytes("l", padLeft<T>(t, w, c)).bytes("p", padRight<T>(t, w, c));
  j.raw("back", big((__int128)convert<T>(convert<__int128>(t)))).i("w", w).i("c", (unsigned char)c);
}
struct H
{
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    if (op.name == "new") {}
    else if (op.name == "split")
    {
      std::string s = tight(op.bytes("s")), d = op.bytes("d");
      std::vector<std::string> r = split(s, d);
      j.bytes("s", s).bytes("d", d).raw("r", jl(r)).bytes("j", join(r, d));
    }
    else if (op.name == "join") { std::vector<std::string> p = pieces(op.raw("p")); j.raw("p", jl(p)).bytes("d", op.bytes("d")).bytes("r", join(p, op.bytes("d"))); }
    else if (op.name == "trim")
    {
      std::string s = op.bytes("s");
      std::string *h = new std::string(s + std::string(40, 'x'));   // on the heap, buffer on the heap
      h->resize(s.size());
      j.bytes("s", s).bytes("r", trim(*h));
      delete h;
    }
    else if (op.name == "pad")
    {
      std::string s = op.bytes("s");
      size_t w = op.i("w");
      char c = char(op.i("c"));
      j.bytes("s", s).i("w", w).i("c", (unsigned char)c).bytes("l", padLeft<String>(s, w, c)).bytes("r", padRight<String>(s, w, c));
      j.bytes("ls", padLeft<String>(s, w)).bytes("rs", padRight<String>(s, w));
    }
    else if (op.name == "case") { std::string s = op.bytes("s"); j.bytes("s", s).bytes("lo", toLower(s)).bytes("up", toUpper(s)); }
    else if (op.name == "int")
    {
      long long v = op.i("v");
      size_t w = op.i("w");
      char c = char(op.i("c"));
      switch (op.i("t"))
      {
        case 0: number<int16_t>(j, v, w, c); break;
        case 1: number<uint16_t>(j, v, w, c); break;
        case 2: number<int32_t>(j, v, w, c); break;
        case 3: number<uint32_t>(j, v, w, c); break;
        case 4: number<int64_t>(j, v, w, c); break;
        default: number<uint64_t>(j, v, w, c); break;
      }
    }
    else if (op.name == "bool") { j.b("v", op.b("v")).bytes("r", stringify<bool>(op.b("v"))); }
    else if (op.name == "float")
    {
      char b[64];
      snprintf(b, 64, "%llde%lld", op.i("m"), op.i("x"));
      bool f = std::llabs(op.i("m")) < 1000000 && std::llabs(op.i("x")) < 25;
      j.i("m", op.i("m")).i("x", op.i("x")).bytes("d", stringify<double>(strtod(b, NULL))).b("f", f).bytes("r", stringify<float>(strtof(b, NULL)));
    }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
