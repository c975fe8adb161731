#include "vh.h"
#include "icl_core/SequenceNumber.h"
#include <memory>
using namespace vh;
using icl_core::SequenceNumber;

struct Any
{
  virtual ~Any() {}
  virtual long long inc(bool post) = 0;
  virtual long long get() const = 0;
  virtual void set(long long b) = 0;
  virtual std::string cmp(long long b, bool swap) const = 0;
  virtual long long mx() const = 0;
  virtual long long mn() const = 0;
};
template <typename T, T MX, T MN, T IN>
struct Impl : public Any
{
  typedef SequenceNumber<T, MX, MN, IN> S;
  S s;
  Impl() {}
  explicit Impl(long long v) : s(T(v)) {}
  long long inc(bool post) { if (post) { S r = s++; return T(r); } else { S r(++s); return T(r); } }
  long long get() const { return T(s); }
  void set(long long b) { if (b % 2) { s = T(b); } else { S o = S(T(b)); s = o; } }
  std::string cmp(long long b, bool swap) const
  {
    S o = S(T(b));
    const S& x = swap ? o : s;
    const S& y = swap ? s : o;
    J j;
    j.b("lt", x < y).b("le", x <= y).b("gt", x > y).b("ge", x >= y).b("eq", x == y).b("ne", x != y);
    return j.str();
  }
  long long mx() const { return S::maxValue(); }
  long long mn() const { return S::minValue(); }
};
template <typename T, T MX, T MN, T IN> Any *mk(bool def, long long b) { return def ? new Impl<T, MX, MN, IN>() : new Impl<T, MX, MN, IN>(b); }

struct H
{
  std::unique_ptr<Any> a;
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    if (op.name == "new")
    {
      long t = op.i("t"), b = op.i("b"), mx = 0, mn = 0, in = 0;
      bool d = op.b("def");
#define TY(N, T, MX, MN, IN) case N: a.reset(mk<T, MX, MN, IN>(d, b)); mx = MX; mn = MN; in = IN; break;
      switch (t)
      {
        TY(1, uint8_t, 5, 0, 0) TY(2, uint16_t, 6, 0, 0) TY(3, uint8_t, 10, 3, 3) TY(4, uint8_t, 255, 0, 0) TY(5, int32_t, 7, 2, 4)
        TY(6, int, 11, -4, -4) TY(7, uint32_t, 16, 8, 9) TY(8, int64_t, 40, 21, 30) TY(9, uint16_t, 65535, 0, 0)
        TY(10, uint32_t, 2000000000, 0, 0) TY(11, uint64_t, 2000000001, 1000000000, 1500000000) TY(12, int16_t, 32767, 0, 32766)
        TY(13, uint32_t, 2000000000, 1999999000, 1999999000)
      }
      j.i("t", t).b("def", d).i("b", b).i("max", mx).i("min", mn).i("init", in).i("rmax", a->mx()).i("rmin", a->mn()).i("v", a->get());
    }
    else if (op.name == "inc") { long long r = a->inc(op.b("post")); j.b("post", op.b("post")).i("ret", r).i("v", a->get()); }
    else if (op.name == "set") { a->set(op.i("b")); j.i("b", op.i("b")).i("v", a->get()); }
    else if (op.name == "cmp") { j.i("b", op.i("b")).raw("r", a->cmp(op.i("b"), false)).raw("s", a->cmp(op.i("b"), true)); }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
