#include "vh.h"
#include "icl_core/UnionFind.h"
#include <memory>
using namespace vh;
typedef icl_core::UnionFind UF;
struct H
{
  std::unique_ptr<UF> u;
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    bool exc = false;
    long ret = 0;
    if (op.name == "new") { j.i("c", op.i("c")); u.reset(new UF(op.i("c"))); }
    else if (op.name == "merge")
    {
      j.i("x", op.i("x")).i("y", op.i("y"));
      try { u->merge(op.i("x"), op.i("y")); } catch (std::out_of_range&) { exc = true; }
    }
    else if (op.name == "find")
    {
      j.i("x", op.i("x"));
      try { ret = u->find(op.i("x")); } catch (std::out_of_range&) { exc = true; }
    }
    else if (op.name == "grow") { j.i("c", op.i("c")); u->grow(op.i("c")); }
    else if (op.name == "copy") { UF *c = new UF(*u); for (size_t k = 1; k < u->size(); ++k) { u->merge(0, k); } u.reset(c); }
    else { _exit(71); }
    UF c(*u); // observed on a copy: finding compresses paths
    Ints f;
    for (size_t k = 0; k < c.size(); ++k) { f.push_back(c.find(k)); }
    j.b("exc", exc).i("ret", ret).i("n", u->size()).ints("f", f);
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
