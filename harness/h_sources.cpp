// Initialising the configuration from files and the command line. One process per episode, in a directory of its own.
#include "vfork.h"
#include "icl_core_config/Config.h"
#include "icl_core_config/ConfigManager.h"
#include "icl_core_config/ConfigObserver.h"
#include "icl_core_config/ConfigParameter.h"
#include "icl_core_config/ConfigPositionalParameter.h"
#include <dirent.h>
#include <sys/stat.h>
using namespace vh;
using namespace icl_core::config;
namespace cfg = icl_core::config;

namespace {
Capture *cap;
std::string head, dir, scratch; // scratch: next to the trace
bool done = false;
std::vector<std::string> told;

std::string yesno(bool b) { return b ? "true" : "false"; }
std::string pair(const std::string& k, const std::string& v) { return "[" + jbytes(k) + "," + jbytes(v) + "]"; }

struct Observer : ConfigObserver
{
  virtual void valueChanged(const icl_core::String& key)
  {
    icl_core::String v;
    ConfigManager::instance().get(key, v);
    told.push_back(pair(key, v));
  }
};

void clean(const std::string& d)
{
  DIR *p = opendir(d.c_str());
  if (!p) { return; }
  while (dirent *e = readdir(p))
  {
    std::string n = e->d_name;
    if (n == "." || n == "..") { continue; }
    if (unlink((d + "/" + n).c_str()) != 0) { clean(d + "/" + n); }
  }
  closedir(p);
  rmdir(d.c_str());
}

void at_exit()
{
  if (!done) { trace().emit(J("result").s("out", "help").raw("args", head)); }
  if (chdir("/") == 0) { clean(dir); }
}

std::string all()
{
  std::vector<std::string> r;
  ConfigIterator it = ConfigManager::instance().find(".*");
  while (it.next()) { r.push_back(pair(it.key(), it.value())); }
  return jlist(r);
}

std::string escaped(const std::string& s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
  {
    switch (s[i])
    {
      case '&': r += "&amp;"; break;
      case '<': r += "&lt;"; break;
      case '>': r += "&gt;"; break;
      case '\'': r += "&#39;"; break;
      case '"': r += "&#x22;"; break;
      default: r += s[i];
    }
  }
  return r;
}

//! A file being written, with its description for the specification.
struct File
{
  std::string n, kind, text, doc;
  std::vector<std::string> lines;
  void item(const std::string& k, const std::string& v) { doc += (doc == "" || doc[doc.size() - 1] == '[' ? "" : ",") + std::string("{\"k\":\"") + k + "\",\"v\":" + jbytes(v) + ",\"c\":["; }
  std::string json() const { return "{\"n\":" + jbytes(n) + ",\"kind\":\"" + kind + "\",\"doc\":[" + doc + "],\"l\":" + jlist(lines) + "}"; }
};

void episode(const std::vector<Op>& ep)
{
  std::string tmp = scratch + "/vfXXXXXX";
  char *d = &tmp[0];
  if (!mkdtemp(d) || chdir(d) != 0) { _exit(71); }
  dir = d;
  setenv("PWD", d, 1);
  setenv("VFDIR", d, 1);
  atexit(at_exit);
  cap = new Capture;
  trace().emit(J("new"));
  std::vector<File> files;
  std::vector<std::string> opts, req, opt, args, params, poss, open;
  ConfigParameterList ps;
  ConfigPositionalParameterList pps;
  opts.push_back("{\"name\":" + jbytes("help") + ",\"short\":" + jbytes("h") + ",\"val\":false,\"pre\":false}");
  opts.push_back("{\"name\":" + jbytes("configfile") + ",\"short\":" + jbytes("c") + ",\"val\":true,\"pre\":false}");
  opts.push_back("{\"name\":" + jbytes("dump-config") + ",\"short\":" + jbytes("dc") + ",\"val\":false,\"pre\":false}");
  opts.push_back("{\"name\":" + jbytes("config-option") + ",\"short\":" + jbytes("o") + ",\"val\":true,\"pre\":true}");
  bool strict = true, lists = false, observe = false, flag = false;
  size_t i = 1;
  for (; i < ep.size() && ep[i].name != "setfile"; ++i)
  {
    const Op& o = ep[i];
    if (o.name == "file")
    {
      files.push_back(File());
      files.back().n = o.bytes("n");
      files.back().kind = o.raw("kind");
      if (o.raw("kind") == "xml") { files.back().text = o.b("decl") ? "<?xml version=\"1.0\" ?>\n<!-- x -->\n<config>" : "<a b=\"c\">"; open.assign(1, o.b("decl") ? "config" : "a"); }
    }
    else if (o.name == "open") { files.back().item("e", o.bytes("n")); open.push_back(o.bytes("n")); files.back().text += "\n<" + o.bytes("n") + (o.b("at") ? " at=\"1\"" : "") + ">"; }
    else if (o.name == "close") { files.back().text += "</" + open.back() + ">\n"; if (open.size() > 1) { files.back().doc += "]}"; } open.pop_back(); }
    else if (o.name == "text") { files.back().item("t", o.bytes("v")); files.back().doc += "]}"; files.back().text += escaped(o.bytes("v")); }
    else if (o.name == "inc") { files.back().item("i", o.bytes("v")); files.back().doc += "]}"; files.back().text += "<INCLUDE>" + escaped(o.bytes("v")) + "</INCLUDE>"; }
    else if (o.name == "cmt") { files.back().item("c", ""); files.back().doc += "]}"; files.back().text += "<!-- <x>1</x> -->"; }
    else if (o.name == "line") { files.back().lines.push_back(jbytes(o.bytes("s"))); files.back().text += o.bytes("s") + "\n"; }
    else if (o.name == "opt")
    {
      std::string n = o.bytes("name"), s = o.bytes("short");
      ps.push_back(ConfigParameter(n + (o.b("val") ? ":" : ""), s, o.bytes("k"), "help text", o.bytes("d")));
      opts.push_back("{\"name\":" + jbytes(n) + ",\"short\":" + jbytes(s) + ",\"val\":" + yesno(o.b("val")) + ",\"pre\":false}");
      params.push_back("{\"o\":" + jbytes(n) + ",\"k\":" + jbytes(o.bytes("k")) + ",\"d\":" + jbytes(o.bytes("d")) + "}");
    }
    else if (o.name == "pos")
    {
      std::string n = o.bytes("name");
      pps.push_back(ConfigPositionalParameter(n, o.bytes("k"), "help text", o.b("optional"), o.bytes("d")));
      (o.b("optional") ? opt : req).push_back(jbytes(n));
      poss.push_back("{\"o\":" + jbytes(n) + ",\"k\":" + jbytes(o.bytes("k")) + ",\"d\":" + jbytes(o.bytes("d")) + "}");
    }
    else if (o.name == "how") { strict = o.b("strict"); lists = o.b("lists"); observe = o.b("late"); flag = o.b("flag"); }
    else if (o.name == "arg") { args.push_back(o.bytes("v")); }
    else { fprintf(stderr, "script: %s?\n", o.name.c_str()); _exit(71); }
  }
  std::vector<std::string> fjson;
  for (size_t k = 0; k < files.size(); ++k)
  {
    size_t sl = files[k].n.rfind('/');
    if (sl != std::string::npos) { mkdir(files[k].n.substr(0, sl).c_str(), 0700); }
    FILE *f = fopen(files[k].n.c_str(), "w");
    if (!f) { _exit(71); }
    fwrite(files[k].text.data(), 1, files[k].text.size(), f);
    fclose(f);
    fjson.push_back(files[k].json());
  }
  trace().emit(J("parse").raw("opts", jlist(opts)).raw("req", jlist(req)).raw("opt", jlist(opt)).b("strict", strict)
    .raw("files", jlist(fjson)).raw("params", jlist(params)).raw("pos", jlist(poss)));
  ConfigManager& m = ConfigManager::instance();
  if (lists) { m.addParameter(ps); m.addParameter(pps); }
  else
  {
    for (size_t k = 0; k < ps.size(); ++k) { m.addParameter(ps[k]); }
    for (size_t k = 0; k < pps.size(); ++k) { m.addParameter(pps[k]); }
  }
  Observer ob;
  if (!observe) { m.registerObserver(&ob, ""); }
  std::vector<std::string> a;
  std::vector<char *> argv(1, strdup("prog"));
  for (size_t k = 0; k < args.size(); ++k) { argv.push_back(strdup(args[k].c_str())); a.push_back(jbytes(args[k])); }
  int argc = int(argv.size());
  argv.push_back(NULL);
  head = jlist(a);
  bool ok = flag ? cfg::initialize(argc, &argv[0], false)
    : cfg::initialize(argc, &argv[0], Getopt::eCLC_None, strict ? Getopt::ePRC_Strict : Getopt::ePRC_Relaxed);
  done = true;
  if (observe) { m.registerObserver(&ob, ""); }
  J j("result");
  j.s("out", ok ? "ok" : "fail").raw("args", head).b("init", m.isInitialized());
  if (ok)
  {
    std::istringstream out(cap->text());
    std::string line;
    std::vector<std::string> dump;
    bool in = false, was = false;
    while (std::getline(out, line))
    {
      if (line == "--- BEGIN CONFIGURATION DUMP ---") { in = was = true; continue; }
      if (line == "--- END CONFIGURATION DUMP ---") { in = false; continue; }
      if (!in) { continue; }
      size_t at = line.find(" = '");
      if (at == std::string::npos || line[line.size() - 1] != '\'') { dump.push_back(pair(line, "?")); }
      else { dump.push_back(pair(line.substr(0, at), line.substr(at + 4, line.size() - at - 5))); }
    }
    j.raw("conf", all()).raw("told", jlist(told)).b("dumped", was).raw("dump", jlist(dump));
  }
  trace().emit(j);
  if (!ok) { return; }
  for (; i < ep.size(); ++i)
  {
    told.clear();
    cfg::setValue<icl_core::String>("/configfile", ep[i].bytes("f"));
    trace().emit(J("setfile").bytes("f", ep[i].bytes("f")).raw("conf", all()).raw("told", jlist(told)));
  }
}
}

int main(int argc, char **argv)
{
  std::string t = argv[argc - 1];
  scratch = t.find('/') == std::string::npos ? "." : t.substr(0, t.rfind('/'));
  if (scratch[0] != '/') { char b[4096]; scratch = getcwd(b, sizeof b) + ("/" + scratch); }
  return drive_forked(argc, argv, episode);
}
