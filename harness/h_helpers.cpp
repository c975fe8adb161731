#include "vh.h"
#include "icl_core/Array2D.h"
#include "icl_core/BitfieldHelper.h"
#include "icl_core/Deprecate.h"
#include "icl_core/EnumHelper.h"
#include "icl_core/SearchableStack.h"
#include "icl_core/SetHelper.h"
#include "icl_core/VectorWrapper.h"
#include <memory>
using namespace vh;
typedef std::vector<long> LV;
class Wrap { public: ICL_CORE_WRAP_VECTOR(Wrap, LV, private, m_v); };
typedef icl_core::Array2D<long> A2;
enum Flags { eF_NONE = 0, eF_LAST = 0x40000000 };
static const long cBAD = -99;

struct H
{
  icl_core::SearchableStack<long> st;
  A2 a;
  Wrap v;

  void sobs(J& j)
  {
    const icl_core::SearchableStack<long>& c = st;
    Ints it(c.begin(), c.end()), rit(c.rbegin(), c.rend());
    j.ints("items", it).ints("ritems", rit).i("size", c.size()).b("empty", c.empty()).i("top", c.empty() ? -1 : (c.top() == st.top() ? c.top() : cBAD));
  }
  void aobs(J& j)
  {
    const A2& c = a;
    Ints cells, rows, idx, iter(c.begin(), c.end());
    for (size_t k = 0; k < c.size(); ++k)
    {
      cells.push_back(c.at(k) == c[k] && a.at(k) == a[k] ? a[k] : cBAD);
      size_t x = 77, y = 77;
      c.indexTo2D(k, x, y);
      idx.push_back(c.index1D(x, y));
    }
    for (size_t y = 0; y < c.height(); ++y)
    {
      for (size_t x = 0; x < c.width(); ++x) { rows.push_back(c.at(x, y) == c(x, y) && a.at(x, y) == a(x, y) ? c(x, y) : cBAD); }
    }
    j.i("w", c.width()).i("h", c.height()).i("size", c.size()).b("empty", c.empty()).ints("cells", cells).ints("rows", rows).ints("idx", idx).ints("iter", iter);
  }
  void vobs(J& j)
  {
    const Wrap& c = v;
    Ints it(c.begin(), c.end()), rit(c.rbegin(), c.rend()), at;
    for (size_t k = 0; k < c.size(); ++k) { at.push_back(c.at(k) == v[k] ? c[k] : cBAD); }
    bool thrown = false;
    try { c.at(c.size()); } catch (std::out_of_range&) { thrown = true; }
    j.ints("items", it).ints("ritems", rit).ints("at", at).i("size", c.size()).b("empty", c.empty()).b("throws", thrown);
  }

  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    const std::string& n = op.name;
    if (n == "new") { st = icl_core::SearchableStack<long>(); a = A2(); v = Wrap(); trace().emit(j); return; }
    if (n == "enum")
    {
      // descriptions are separated by 0 in d
      std::vector<std::string> d;
      std::string all = op.bytes("d"), s = op.bytes("s");
      std::vector<const char *> cd, ce;
      for (size_t b = 0, k = 0; k < all.size(); ++k) { if (all[k] == 0) { d.push_back(all.substr(b, k - b)); b = k + 1; } }
      for (size_t k = 0; k < d.size(); ++k) { cd.push_back(d[k].c_str()); ce.push_back(d[k].c_str()); }
      cd.push_back(NULL);
      ce.push_back("@END@");
      ce.push_back("beyond");
      std::vector<std::string> dj;
      for (size_t k = 0; k < d.size(); ++k) { dj.push_back(jbytes(d[k])); }
      int32_t v1 = -5, v2 = -5, v3 = -5;
      int64_t v4 = -5;
      bool r1 = icl_core::string2Enum(s, v1, &cd[0]);
      bool r2 = icl_core::string2Enum(s, v2, &ce[0], "@END@");
      bool r3 = icl_core::string2Enum(s, v3, d);
      bool r4 = icl_core::string2Enum(s, v4, d);
      const long vals[4] = { v1, v2, v3, (long)v4 };
      const bool oks[4] = { r1, r2, r3, r4 };
      for (int k = 0; k < 4; ++k)
      {
        J x("enum");
        x.raw("d", jlist(dj)).bytes("s", s).b("ok", oks[k]).i("val", vals[k]).i("old", -5);
        trace().emit(x);
      }
      return;
    }
    if (n == "setrel")
    {
      Ints x = op.ints("a"), y = op.ints("b");
      std::set<long> s1(x.begin(), x.end()), s2(y.begin(), y.end());
      j.ints("a", x).ints("b", y).i("rel", icl_core::setRelation(s1, s2));
    }
    else if (n == "bits")
    {
      long x = op.i("x"), m = op.i("m");
      int i1 = x, i2 = x;
      icl_core::setBits<int>(m, i1);
      icl_core::clearBits<int>(m, i2);
      Flags f1 = Flags(x), f2 = Flags(x);
      icl_core::setBits<Flags>(m, f1);
      icl_core::clearBits<Flags>(m, f2);
      bool s = icl_core::isBitSet<int>(m, x);
      bool same = int(f1) == i1 && int(f2) == i2 && icl_core::isBitSet<Flags>(m, Flags(x)) == s;
      if (x < 256 && m < 256)
      {
        uint8_t u1 = x, u2 = x;
        icl_core::setBits<uint8_t>(m, u1);
        icl_core::clearBits<uint8_t>(m, u2);
        same = same && u1 == i1 && u2 == i2 && icl_core::isBitSet<uint8_t>(m, x) == s;
      }
      j.i("x", x).i("m", m).i("set", same ? i1 : cBAD).i("clear", i2).b("isset", s);
    }
    else if (n[0] == 's')
    {
      if (n != "spop" && n != "sclear") { j.i("v", op.i("v")); }
      if (n == "spush") { st.push(op.i("v")); }
      else if (n == "spop") { st.pop(); }
      else if (n == "stop") { st.top() = op.i("v"); }
      else if (n == "sclear") { st.clear(); }
      else if (n == "sfind") { j.i("pos", st.find(op.i("v")) - st.begin()); }
      else { _exit(71); }
      sobs(j);
    }
    else if (n[0] == 'a')
    {
      if (op.has("aw")) { j.i("aw", op.i("aw")).i("ah", op.i("ah")); }
      if (op.has("x")) { j.i("x", op.i("x")).i("y", op.i("y")); }
      if (n != "acopy") { j.i("v", op.i("v")); }
      if (n == "anew") { A2 b(op.i("aw"), op.i("ah"), op.i("v")); a = b; }
      else if (n == "aresize") { if (op.i("v")) { a.resize(op.i("aw"), op.i("ah"), op.i("v")); } else { a.resize(op.i("aw"), op.i("ah")); } }
      else if (n == "aassign") { if (op.i("v")) { a.assign(op.i("aw"), op.i("ah"), op.i("v")); } else { a.assign(op.i("aw"), op.i("ah")); } }
      else if (n == "afill") { if (op.i("v")) { a.set(op.i("v")); } else { a.reset(); } }
      else if (n == "aput")
      {
        switch (op.i("v") % 3)
        {
          case 0: a(op.i("x"), op.i("y")) = op.i("v"); break;
          case 1: a.at(op.i("x"), op.i("y")) = op.i("v"); break;
          default: a[a.index1D(op.i("x"), op.i("y"))] = op.i("v");
        }
      }
      else if (n == "acopy") { A2 b(a); a.set(cBAD); a = b; b.set(cBAD); }
      else if (n == "aswap") { A2 b(op.i("aw"), op.i("ah"), op.i("v")); A2 old(a); a.swap(b); if (b.width() != old.width() || b.height() != old.height() || !std::equal(b.begin(), b.end(), old.begin()) || b.size() != old.size()) { j.s("swap", "lost"); } }
      else { _exit(71); }
      aobs(j);
    }
    else if (n[0] == 'v')
    {
      if (op.has("p")) { j.i("p", op.i("p")); }
      if (op.has("q")) { j.i("q", op.i("q")); }
      if (op.has("n")) { j.i("n", op.i("n")); }
      if (op.has("v")) { j.i("v", op.i("v")); }
      if (n == "vpush") { v.push_back(op.i("v")); }
      else if (n == "vpop") { v.pop_back(); }
      else if (n == "vins")
      {
        Wrap::iterator p = v.begin() + op.i("p");
        LV src(op.i("n"), op.i("v"));
        if (op.i("n") == 1) { v.insert(p, op.i("v")); }
        else if (op.i("p") % 2) { v.insert(p, src.begin(), src.end()); }
        else { v.insert(p, Wrap::size_type(op.i("n")), long(op.i("v"))); }
      }
      else if (n == "verase") { if (op.i("q") == op.i("p") + 1) { v.erase(v.begin() + op.i("p")); } else { v.erase(v.begin() + op.i("p"), v.begin() + op.i("q")); } }
      else if (n == "vresize") { v.resize(op.i("n"), op.i("v")); }
      else if (n == "vassign") { Wrap o(Wrap::size_type(op.i("n")), long(op.i("v"))); if (op.i("n") % 2) { v.swap(o); } else { v.assign(o.begin(), o.end()); } }
      else if (n == "vclear") { v.clear(); }
      else { _exit(71); }
      vobs(j);
    }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
