#include "vh.h"
#include "icl_core/KeyValueDirectory.h"
#include <memory>
using namespace vh;
typedef icl_core::KeyValueDirectory<int> KI;
typedef icl_core::KeyValueDirectory<icl_core::String> KS;

static std::string esc(const std::string& s)
{
  std::string o;
  for (size_t p = 0; p < s.size(); ++p)
  {
    if (strchr(".[]{}()\\*+?|^$/", s[p])) { o += '\\'; }
    o += s[p];
  }
  return o;
}

struct H
{
  std::unique_ptr<KI> ki;
  std::unique_ptr<KS> ks;

  template <typename T> static std::string val(const T& v) { std::stringstream s; s << v; return s.str(); }
  template <typename D> static std::string list(D& it)
  {
    std::vector<std::string> r;
    while (it.next() && r.size() < 1000)
    {
      std::vector<std::string> g;
      for (size_t k = 0; k < 4; ++k) { g.push_back(jbytes(it.matchGroup(k))); }
      J j;
      j.bytes("k", it.key()).i("v", atoll(val(it.value()).c_str())).raw("g", jlist(g));
      r.push_back(j.str());
    }
    return jlist(r);
  }
  static std::string past(bool a, bool b) { return std::string("[") + (a ? "true," : "false,") + (b ? "true]" : "false]"); }

  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    if (op.name == "new") { ki.reset(new KI); ks.reset(new KS); }
    else if (op.name == "insert")
    {
      std::string k = op.bytes("k");
      bool a = ki->insert(k, op.i("v")), b = ks->insert(k, op.raw("v"));
      j.bytes("k", k).i("v", op.i("v")).b("fresh", a);
      if (a != b) { j.s("disagree", "types"); }
    }
    else if (op.name == "get")
    {
      std::string k = op.bytes("k"), sv = "-1";
      int iv = -1;
      bool a = ki->get(k, iv), b = ks->get(k, sv);
      bool ha = ki->hasKey(k), hb = ks->hasKey(k);
      j.bytes("k", k).b("found", a).b("has", ha).i("v", iv);
      if (a != b || ha != hb || sv != val(iv)) { j.s("disagree", "types"); }
    }
    else if (op.name == "query")
    {
      std::string pre = op.bytes("pre"), suf = op.bytes("suf"), rx;
      long kind = op.i("kind");
      rx = kind == 1 ? "(" + esc(pre) + ")(" + esc(suf) + ")" : esc(pre) + (kind == 0 ? "(.*)" : "([^\\/]*)") + esc(suf);
      icl_core::KeyValueDirectoryIterator<int> it = ki->find(rx);
      icl_core::KeyValueDirectoryIterator<icl_core::String> is = ks->find(rx);
      std::string r = list(it);
      bool p1 = it.next(), p2 = it.next();
      it.reset();
      std::string a = list(it);
      std::string s = list(is);
      bool q1 = is.next(), q2 = is.next();
      j.bytes("pre", pre).bytes("suf", suf).i("kind", kind).raw("res", r).raw("again", a).raw("past", past(p1 || q1, p2 || q2));
      if (r != s) { j.raw("again", s); }
    }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
