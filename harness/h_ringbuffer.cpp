#include "vh.h"
#include "icl_core/RingBuffer.h"
#include <memory>
using namespace vh;
typedef icl_core::RingBuffer<long> RB;
static const long cPOISON = -7777;

struct H
{
  std::unique_ptr<RB> rb;

  void observe(J& j)
  {
    RB& r = *rb;
    const RB& c = r;
    j.i("cap", r.capacity()).i("size", r.size()).i("free", r.reserve()).b("empty", r.empty()).b("full", r.full());
    Ints it, cit, at, seg, back, hop;
    for (RB::iterator i = r.begin(); i != r.end() && it.size() <= r.size(); ++i) { it.push_back(*i); }
    for (RB::const_iterator i = c.begin(); i != c.end() && cit.size() <= r.size(); i++) { cit.push_back(*i); }
    for (size_t k = 0; k < r.size(); ++k) { at.push_back(c.at(k)); hop.push_back(*(c.begin() + k)); }
    RB::const_iterator e = c.end();
    for (size_t k = 0; k < r.size(); ++k) { --e; back.insert(back.begin(), *e); }
    RB::array_range a1 = r.arrayOne(), a2 = r.arrayTwo();
    RB::const_array_range b1 = c.arrayOne(), b2 = c.arrayTwo();
    for (size_t k = 0; k < a1.second; ++k) { seg.push_back(a1.first[k]); }
    for (size_t k = 0; k < a2.second; ++k) { seg.push_back(a2.first[k]); }
    bool same = a1.first == b1.first && a1.second == b1.second && a2.second == b2.second
      && (a2.second == 0 || a2.first == b2.first) && (r.empty() || a1.second > 0);
    RB::array_range e1 = r.emptyArrayOne(), e2 = r.emptyArrayTwo();
    RB::const_array_range f1 = c.emptyArrayOne(), f2 = c.emptyArrayTwo();
    same = same && e1.second == f1.second && e2.second == f2.second && (e1.second == 0 || e1.first == f1.first)
      && (e2.second == 0 || e2.first == f2.first);
    // Distances between iterators.
    bool dist = (c.end() - c.begin()) == (long)r.size() && (c.begin() - c.end()) == -(long)r.size();
    for (size_t k = 0; k < r.size(); ++k)
    {
      dist = dist && (c.begin() + k) - c.begin() == (long)k && ((c.begin() + k) - k) == c.begin() && (c.end() - (r.size() - k)) == (c.begin() + k);
    }
    j.ints("items", it).ints("citems", cit).ints("at", at).ints("hop", hop).ints("back", back).ints("seg", seg)
      .i("espace", e1.second + e2.second).b("views", same && dist);
    bool thrown = false;
    try { c.at(r.size()); } catch (std::out_of_range&) { thrown = true; }
    j.b("atend", thrown);
  }

  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    bool exc = false;
    long ret = 0;
    if (op.name == "new") { j.i("c", op.i("c")); rb.reset(new RB(op.i("c"))); }
    else if (op.name == "write")
    {
      j.i("v", op.i("v")).b("ow", op.b("ow"));
      try { rb->write(op.i("v"), op.b("ow")); } catch (std::out_of_range&) { exc = true; }
    }
    else if (op.name == "read") { try { ret = rb->read(); } catch (std::out_of_range&) { exc = true; } }
    else if (op.name == "front") { try { ret = rb->front(); } catch (std::out_of_range&) { exc = true; } }
    else if (op.name == "skip") { try { rb->skip(); } catch (std::out_of_range&) { exc = true; } }
    else if (op.name == "skipn") { j.i("n", op.i("n")); rb->skip(op.i("n")); }
    else if (op.name == "clear") { rb->clear(); }
    else if (op.name == "setcap") { j.i("c", op.i("c")); rb->setCapacity(op.i("c")); }
    else if (op.name == "set") { j.i("k", op.i("k")).i("v", op.i("v")); try { rb->at(op.i("k")) = op.i("v"); } catch (std::out_of_range&) { exc = true; } }
    else if (op.name == "fake")
    {
      // Fill the whole free space with v, v+1, ... then claim n of them.
      j.i("n", op.i("n")).i("v", op.i("v"));
      long v = op.i("v");
      RB::array_range e1 = rb->emptyArrayOne(), e2 = rb->emptyArrayTwo();
      for (size_t k = 0; k < e1.second; ++k) { e1.first[k] = v++; }
      for (size_t k = 0; k < e2.second; ++k) { e2.first[k] = v++; }
      rb->fakeWrite(op.i("n"));
    }
    else if (op.name == "copy")
    {
      // Continue with a copy; the original is then emptied, which must not affect the copy.
      std::unique_ptr<RB> o(new RB(*rb));
      while (!rb->empty()) { rb->front() = cPOISON; rb->skip(); }
      rb.swap(o);
    }
    else if (op.name == "assign")
    {
      std::unique_ptr<RB> o(new RB(op.i("c")));
      for (long k = 0; k < op.i("n"); ++k) { if (op.i("c") > 0) { o->write(cPOISON, true); } }
      j.i("c", op.i("c")).i("n", op.i("n"));
      *o = *rb;
      while (!rb->empty()) { rb->front() = cPOISON; rb->skip(); }
      rb.swap(o);
    }
    else { _exit(71); }
    j.b("exc", exc).i("ret", exc ? 0 : ret);
    observe(j);
    trace().emit(j);
  }
};

int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
