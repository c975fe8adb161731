// Command lines: one process per episode, for Getopt is a process-wide object.
#include "vfork.h"
#include "icl_core_config/GetoptParser.h"
#include "icl_core_config/GetoptParameter.h"
#include "icl_core_config/GetoptPositionalParameter.h"
using namespace vh;
using namespace icl_core::config;

namespace {
Capture *cap;
std::string head, prog;
std::vector<std::string> listed;
bool done = false;

std::string yesno(bool b) { return b ? "true" : "false"; }

J result(const char *out)
{
  done = true;
  bool help = true;
  std::string text = cap->text();
  for (size_t i = 0; i < listed.size(); ++i) { if (text.find(listed[i]) == std::string::npos) { help = false; } }
  J j("result");
  j.s("out", out).raw("args", head).b("help", help);
  return j;
}

void at_exit() { if (!done) { trace().emit(result("help")); } }

void episode(const std::vector<Op>& ep)
{
  cap = new Capture;
  trace().emit(J("new"));
  Getopt& g = Getopt::instance();
  GetoptParameterList ps;
  GetoptPositionalParameterList pps;
  std::vector<std::string> opts, req, opt, args, ask, askpre;
  opts.push_back("{\"name\":" + jbytes("help") + ",\"short\":" + jbytes("h") + ",\"val\":false,\"pre\":false}");
  listed.push_back("--help");
  ask.push_back("help");
  bool strict = true, extra = false, cleanup = false, flag = false, lists = false;
  std::string delim = "--";
  prog = "prog";
  for (size_t i = 1; i < ep.size(); ++i)
  {
    const Op& o = ep[i];
    if (o.name == "opt")
    {
      std::string n = o.bytes("name"), s = o.bytes("short");
      bool v = o.b("val"), p = o.b("pre");
      ps.push_back(GetoptParameter(n + (v ? ":" : ""), s, "help text", p));
      opts.push_back("{\"name\":" + jbytes(n) + ",\"short\":" + jbytes(s) + ",\"val\":" + yesno(v) + ",\"pre\":" + yesno(p) + "}");
      (p ? askpre : ask).push_back(n);
      if (!p) { listed.push_back("--" + n); if (s != "") { listed.push_back("-" + s); } }
    }
    else if (o.name == "pos")
    {
      std::string n = o.bytes("name");
      pps.push_back(GetoptPositionalParameter(n, "help text", o.b("optional")));
      (o.b("optional") ? opt : req).push_back(jbytes(n));
      listed.push_back("<" + n + ">");
      ask.push_back(n);
    }
    else if (o.name == "how")
    {
      strict = o.b("strict"); extra = o.b("extra"); cleanup = o.b("cleanup"); flag = o.b("flag"); lists = o.b("lists");
      delim = o.bytes("delim");
    }
    else if (o.name == "arg") { args.push_back(o.bytes("v")); }
    else if (o.name == "ask") { (o.b("pre") ? askpre : ask).push_back(o.bytes("name")); }
  }
  if (lists) { g.addParameter(ps); g.addParameter(pps); }
  else
  {
    for (size_t i = 0; i < ps.size(); ++i) { g.addParameter(ps[i]); }
    for (size_t i = 0; i < pps.size(); ++i) { g.addParameter(pps[i]); }
  }
  if (extra) { if (delim == "--") { g.activateExtraCmdParams(); } else { g.activateExtraCmdParams(delim); } }
  {
    J j("parse");
    j.raw("opts", jlist(opts)).raw("req", jlist(req)).raw("opt", jlist(opt)).b("strict", strict).b("extra", extra).bytes("delim", delim);
    trace().emit(j);
  }
  std::vector<std::string> a;
  std::vector<char *> own, argv;
  own.push_back(&prog[0]);
  for (size_t i = 0; i < args.size(); ++i) { own.push_back(strdup(args[i].c_str())); a.push_back(jbytes(args[i])); }
  argv = own;
  argv.push_back(NULL);
  head = jlist(a);
  atexit(at_exit);
  int argc = int(own.size());
  bool ok = flag ? g.initialize(argc, &argv[0], cleanup)
    : g.initialize(argc, &argv[0], cleanup ? Getopt::eCLC_Cleanup : Getopt::eCLC_None, strict ? Getopt::ePRC_Strict : Getopt::ePRC_Relaxed);
  if (!ok) { trace().emit(result("fail")); return; }
  J j = result("ok");
  std::vector<std::string> asked, got, askedpre, pre, non, ex, left;
  for (size_t i = 0; i < ask.size(); ++i)
  {
    asked.push_back(jbytes(ask[i]));
    got.push_back("[" + yesno(g.paramOptPresent(ask[i])) + "," + jbytes(g.paramOpt(ask[i])) + "]");
  }
  for (size_t i = 0; i < askpre.size(); ++i)
  {
    askedpre.push_back(jbytes(askpre[i]));
    std::vector<std::string> kvs;
    Getopt::KeyValueList l = g.paramPrefixOpt(askpre[i]);
    for (Getopt::KeyValueList::const_iterator it = l.begin(); it != l.end(); ++it) { kvs.push_back("[" + jbytes(it->m_key) + "," + jbytes(it->m_value) + "]"); }
    pre.push_back("[" + yesno(g.paramPrefixOptPresent(askpre[i])) + "," + jlist(kvs) + "]");
  }
  for (size_t i = 0; i <= g.paramNonOptCount(); ++i) { non.push_back(jbytes(g.paramNonOpt(i))); }
  for (size_t i = 0; i < g.extraCmdParamCount(); ++i) { ex.push_back(jbytes(g.extraCmdParam(i))); }
  for (int i = 1; i < argc; ++i)
  {
    int at = 0;
    for (size_t k = 1; k < own.size(); ++k) { if (own[k] == argv[i]) { at = int(k); } }
    left.push_back(std::to_string(at));
  }
  j.b("cleanup", cleanup).raw("ask", jlist(asked)).raw("got", jlist(got)).raw("askpre", jlist(askedpre)).raw("pre", jlist(pre))
    .raw("non", jlist(non)).i("nnon", (long long)g.paramNonOptCount()).raw("ex", jlist(ex)).raw("left", jlist(left))
    .i("argc", g.argc()).b("prog", g.programName() == prog && argv[0] == own[0]);
  trace().emit(j);
}
}

int main(int argc, char **argv) { return drive_forked(argc, argv, episode); }
