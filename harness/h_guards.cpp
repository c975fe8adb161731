#include "vh.h"
#include "icl_core/AtScopeEnd.h"
#include "icl_core/ExpectedType.h"
#include "icl_core/Finalizable.h"
#include <boost/bind/bind.hpp>
#include <memory>
using namespace vh;
typedef icl_core::Finalizable<long> F;
struct Ba { virtual ~Ba() {} };
struct De : public Ba {};
using icl_core::ExpectedType;
using icl_core::ExpectedTypeIs;

struct H
{
  std::unique_ptr<F> f;
  std::vector<icl_core::AtScopeEnd *> g;
  Ints runs;
  H() : f(new F(0)) {}
  void ran(long depth) { runs.push_back(depth); }
  static ExpectedType::Ptr token(int k)
  {
    switch (k)
    {
      case 0: return ExpectedType::Ptr(new ExpectedTypeIs<int>);
      case 1: return ExpectedType::Ptr(new ExpectedTypeIs<double>);
      case 2: return ExpectedType::Ptr(new ExpectedTypeIs<Ba>);
      case 3: return ExpectedType::Ptr(new ExpectedTypeIs<De>);
      default: return ExpectedType::Ptr(new ExpectedTypeIs<unsigned int>);
    }
  }
  static bool is(const ExpectedType::Ptr& p, int k)
  {
    switch (k)
    {
      case 0: return p->is<int>();
      case 1: return p->is<double>();
      case 2: return p->is<Ba>();
      case 3: return p->is<De>();
      default: return p->is<unsigned int>();
    }
  }
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    const std::string& n = op.name;
    bool exc = false;
    if (n == "new") { f.reset(new F(0)); for (size_t k = 0; k < g.size(); ++k) { delete g[k]; } g.clear(); runs.clear(); }
    else if (n[0] == 'f')
    {
      if (op.has("v")) { j.i("v", op.i("v")); }
      if (n == "fnew") { f.reset(new F(op.i("v"))); }
      else if (n == "fassign") { try { *f = long(op.i("v")); } catch (std::logic_error&) { exc = true; } }
      else if (n == "fassignf")
      {
        F o(op.i("v"));
        if (op.b("f")) { o.finalize(); }
        j.b("f", op.b("f"));
        try { *f = o; } catch (std::logic_error&) { exc = true; }
      }
      else if (n == "fcopy") { f.reset(new F(*f)); }
      else if (n == "ffinal") { f->finalize(); }
      else { _exit(71); }
      j.b("exc", exc).i("val", long(*f)).b("final", f->isFinal());
    }
    else if (n[0] == 'g')
    {
      if (n == "gpush") { g.push_back(new icl_core::AtScopeEnd(boost::bind(&H::ran, this, long(g.size() + 1)))); }
      else if (n == "genable") { g.back()->enable(); }
      else if (n == "gdisable") { g.back()->disable(); }
      else if (n == "gpop")
      {
        j.b("thrown", op.b("thrown"));
        std::unique_ptr<icl_core::AtScopeEnd> p(g.back());
        g.pop_back();
        if (op.b("thrown")) { try { std::unique_ptr<icl_core::AtScopeEnd> q(p.release()); throw 1; } catch (int) {} }
        p.reset();
      }
      else { _exit(71); }
      j.i("depth", g.size()).ints("runs", runs);
    }
    else if (n == "tcmp")
    {
      ExpectedType::Ptr a = token(op.i("a")), b = token(op.i("b"));
      j.i("a", op.i("a")).i("b", op.i("b")).b("eq", *a == *b).b("ne", *a != *b).b("is", is(a, op.i("b")));
    }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
