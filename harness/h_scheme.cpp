#include "vh.h"
#include <memory>
#include <sstream>
#include "icl_core/SchemeParser.h"
using namespace vh;
using namespace icl_core;

static std::string parts(const Scheme& s)
{
  static const char *names[] = { "file", "http", "camera", "gps", "other" };
  std::vector<std::string> q;
  for (size_t i = 0; i < s.queries.size(); ++i) { J r; r.bytes("k", s.queries[i].name).bytes("v", s.queries[i].value); q.push_back(r.str()); }
  J j;
  j.s("type", s.scheme_type >= 0 && s.scheme_type <= 4 ? names[s.scheme_type] : "?").bytes("name", s.scheme_name).bytes("spec", s.specifier);
  j.bytes("anchor", s.anchor).raw("q", jlist(q));
  return j.str();
}
struct H
{
  std::unique_ptr<SchemeParser> p;
  Scheme shared;                       // a result structure that is used again and again
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    if (op.name == "new") { p.reset(new SchemeParser()); shared = Scheme(); shared.scheme_type = HttpScheme; }
    else if (op.name == "parse")
    {
      std::string t = op.bytes("text");
      bool ok = p->parseScheme(t);
      std::ostringstream o;
      o << p->getSchemeResult();
      BOOST_SPIRIT_NAMESPACE::parse_info<> info;
      bool sok = SchemeParser::parseScheme(t, shared, info);
      j.bytes("text", t).b("ok", ok).raw("p", parts(p->getSchemeResult())).bytes("printed", o.str());
      j.b("full", p->getParseInfo().full && true).i("len", p->getParseInfo().length).b("statok", sok).raw("stat", parts(shared));
    }
    else { _exit(71); }
    trace().emit(j);
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
