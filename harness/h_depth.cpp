#include "vh.h"
#include <functional>
#include <memory>
#include <sstream>
#include "icl_core/DataHeader.h"
#include "icl_core/ZBuffer.h"
using namespace vh;
using namespace icl_core;

typedef std::function<bool (int, int)> Cmp;
static boost::posix_time::ptime T0(boost::gregorian::date(2000, 1, 1));
struct Opaque { int a, b, c; };

struct H
{
  std::unique_ptr<ZBuffer<int> > lt;
  std::unique_ptr<ZBuffer<int, Cmp> > gt;
  Stamped<int> st;
  std::string o;
  std::string cells() const
  {
    std::vector<std::string> r;
    for (size_t i = 0; i < (lt ? lt->size() : gt->size()); ++i)
    {
      boost::optional<int> a = lt ? lt->at(i) : gt->at(i), b = lt ? (*lt)[i] : (*gt)[i], c = lt ? lt->buffer()[i] : gt->buffer()[i];
      Ints v;
      if (a) { v.push_back(*a); }
      if (bool(a) != bool(b) || bool(a) != bool(c) || (a && (*a != *b || *a != *c))) { v.push_back(-999); }
      J j;
      j.ints("x", v);
      std::string s = j.str();
      r.push_back(s.substr(5, s.size() - 6));
    }
    return jlist(r);
  }
  static std::string show(const Stamped<int>& s)
  {
    const DataHeader& h = s.header();
    bool valid = !h.timestamp.is_not_a_date_time();
    int v = s.get();
    if (*s != v || s.cget() != v || int(s) != v) { v = -999; }
    J j;
    j.i("v", v).s("frame", h.coordinate_system).b("valid", valid).i("time", valid ? (h.timestamp - T0).total_milliseconds() : 0);
    j.i("seq", h.sequence_number).i("dsin", h.dsin);
    return j.str();
  }
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    if (op.name == "new")
    {
      size_t n = op.i("n");
      o = op.s("o");
      lt.reset();
      gt.reset();
      if (o == "lt") { lt.reset(new ZBuffer<int>(n)); } else { gt.reset(new ZBuffer<int, Cmp>(n, Cmp(std::greater<int>()))); }
      st = Stamped<int>(0);
      j.i("n", n).s("o", o).raw("cells", cells());
    }
    else if (op.name == "update")
    {
      size_t i = op.i("i");
      int v = op.i("v");
      bool r = lt ? lt->update(i, v) : gt->update(i, v);
      j.i("i", i).i("v", v).b("r", r).raw("cells", cells()).i("size", lt ? lt->size() : gt->size());
    }
    else if (op.name == "reset") { if (lt) { lt->reset(); } else { gt->reset(); } j.raw("cells", cells()); }
    else if (op.name == "stamp")
    {
      std::string how = op.s("how");
      boost::posix_time::ptime t = T0 + boost::posix_time::milliseconds(op.i("t"));
      DataHeader full(op.s("frame"), t, op.i("seq")), part(op.s("frame"), t);
      void *mem = operator new(sizeof(Stamped<int>));
      memset(mem, 0x5a, sizeof(Stamped<int>));
      Stamped<int> *p;
      if (how == "data") { p = new (mem) Stamped<int>(int(op.i("v"))); }
      else if (how == "header") { p = new (mem) Stamped<int>(full); p->get() = 0; }
      else if (how == "both") { p = new (mem) Stamped<int>(op.i("v"), full); }
      else if (how == "noseq") { p = new (mem) Stamped<int>(op.i("v"), part); }
      else { _exit(71); }
      if (op.i("v") % 2) { st = *p; } else { Stamped<int> c(*p); st = c; }
      p->~Stamped<int>();
      operator delete(mem);
      j.s("how", how).i("v", op.i("v")).s("frame", op.s("frame")).i("t", op.i("t")).i("seq", op.i("seq")).raw("st", show(st));
    }
    else if (op.name == "data")
    {
      int v = op.i("v");
      if (v % 2) { *st = v; } else { st.get() = v; }
      j.i("v", v).raw("st", show(st));
    }
    else if (op.name == "header")
    {
      StampedBase& b = st;
      b.header().sequence_number = op.i("seq");
      b.header().dsin = op.i("dsin");
      b.header().coordinate_system = op.s("frame");
      j.i("seq", op.i("seq")).i("dsin", op.i("dsin")).s("frame", op.s("frame")).raw("st", show(st));
    }
    else if (op.name == "print")
    {
      std::ostringstream a, b;
      a << static_cast<const StampedBase&>(st);
      const DataHeader& h = st.header();
      b << "[seq: " << h.sequence_number << ", timestamp: " << boost::posix_time::to_simple_string(h.timestamp) << ", DSIN: " << h.dsin
        << ", Frame: " << h.coordinate_system << "; " << st.get() << "]";
      Stamped<Opaque> q(Opaque(), h);
      std::ostringstream c;
      c << q;
      b << c.str().substr(c.str().rfind("; ") + 2);
      a << "12 data bytes]";
      j.s("text", a.str()).s("expect", b.str()).raw("st", show(st));
    }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
