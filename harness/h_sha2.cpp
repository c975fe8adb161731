#include "vh.h"
#include "icl_core_crypt/Sha2.h"
#include <memory>
#include <sys/mman.h>
#include <sys/time.h>
using namespace vh;
using namespace icl_core::crypt;

struct Base
{
  virtual ~Base() {}
  virtual Base* clone() const = 0;
  virtual void cstr(const std::string& s) = 0;
  virtual void str(const std::string& s) = 0;
  virtual void buf(const void *p, size_t n) = 0;
  virtual void fin() = 0;
  virtual void clear() = 0;
  virtual std::string hex() const = 0;
};
template <typename T> struct Of : public Base
{
  T s;
  virtual Base* clone() const { Of *r = new Of; r->s = s; return r; }
  virtual void cstr(const std::string& x) { s.process(x.c_str()); }
  virtual void str(const std::string& x) { s.process(x); }
  virtual void buf(const void *p, size_t n) { s.process(p, n); }
  virtual void fin() { s.finalize(); }
  virtual void clear() { s.clear(); }
  virtual std::string hex() const { return s.getHexDigest(); }
};
static Base* make(const std::string& v)
{
  if (v == "sha224") { return new Of<Sha224>; }
  if (v == "sha256") { return new Of<Sha256>; }
  if (v == "sha384") { return new Of<Sha384>; }
  if (v == "sha512") { return new Of<Sha512>; }
  std::exit(71);
}
struct H
{
  std::unique_ptr<Base> o, c;
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    if (op.name == "new") { std::string v = op.raw("v"); o.reset(make(v)); c.reset(make(v)); j.s("v", v); }
    else if (op.name == "cstr") { std::string m = op.bytes("m"); o->cstr(m); j.bytes("m", m); }
    else if (op.name == "str") { std::string m = op.bytes("m"); o->str(m); j.bytes("m", m); }
    else if (op.name == "buf")
    {
      std::string m = op.bytes("m");
      char *p = new char[m.size() + 1];                 // exactly as long as the part
      char *q = m.empty() ? p : new char[m.size()];
      memcpy(q, m.data(), m.size());
      o->buf(q, m.size());
      if (q != p) { delete[] q; }
      delete[] p;
      j.bytes("m", m);
    }
    else if (op.name == "zeros")
    {
      size_t n = size_t(1) << op.i("z");
      void *p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) { std::exit(71); }
      struct itimerval t = { { 0, 0 }, { 300, 0 } };       // takes long, is not a hang
      setitimer(ITIMER_PROF, &t, NULL);
      o->buf(p, n);
      munmap(p, n);
      j.i("z", op.i("z"));
    }
    else if (op.name == "fin") { o->fin(); }
    else if (op.name == "clear") { o->clear(); }
    else if (op.name == "copy") { c.reset(o->clone()); }
    else if (op.name == "swap") { o.swap(c); }
    else if (op.name == "peek") { o->hex(); }
    else if (op.name == "digest") { j.bytes("r", o->hex()); }
    else { std::exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv)
{
  H h;
  return drive(argc, argv, h);
}
