// A plugin manager whose directories are made for each episode.
#include "vfork.h"
#include "plugin_iface.h"
#include "plugin_types.h"
#include "icl_core_logging/Logging.h"
#include <ftw.h>
#include <sys/stat.h>
#include <set>
using namespace vh;

static int g_made, g_gone;
extern "C" int vf_made() { return ++g_made; }
extern "C" void vf_gone() { ++g_gone; }

// One plugin is part of the program itself, as the documentation allows.
struct Linked : public Tool
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN
  virtual int number() const { return 0; }
  virtual const char *kind() const { return "linked"; }
};
ICL_CORE_PLUGIN_REGISTER_PLUGIN(Tool, Linked, "linked")

struct Static : public Tool
{
  std::string id; int n;
  Static(const std::string& i, int k) : id(i), n(k) {}
  virtual std::string Identifier() const { return id; }
  virtual int number() const { return n; }
  virtual const char *kind() const { return "static"; }
};

extern const char no_dir[] = "";
ICL_CORE_PLUGIN_DECLARE_PLUGIN_MANAGER(Manager, Tool, no_dir)
extern const char some_dir[] = "p";
typedef icl_core::plugin::PluginManager<Tool, some_dir> Fixed;

static std::vector<std::string> split(const std::string& s, char c)
{
  std::vector<std::string> r;
  std::string t;
  std::stringstream in(s);
  while (std::getline(in, t, c)) { if (!t.empty()) { r.push_back(t); } }
  return r;
}
static std::string jpath(const std::string& p)
{
  std::vector<std::string> v = split(p, '/'), o;
  for (size_t k = 0; k < v.size(); ++k) { o.push_back(quote(v[k])); }
  return jlist(o);
}
static std::string jtool(Tool *t)
{
  return J().s("k", t ? t->kind() : "").i("n", t ? t->number() : 0).str();
}
static int rm(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }

template <typename M> static void run(const std::vector<Op>& ops, M *m)
{
  std::vector<std::pair<std::string, std::string> > files;   // path, kind
  std::map<std::string, Static *> statics;
  std::vector<Tool *> own;
  for (size_t k = 0; k < ops.size(); ++k)
  {
    const Op& o = ops[k];
    J j(o.name.c_str());
    if (o.name == "new")
    {
      std::vector<std::string> f = split(o.s("files"), ','), fj, pj;
      for (size_t i = 0; i < f.size(); ++i)
      {
        std::string path = f[i].substr(0, f[i].find(':')), kind = f[i].substr(f[i].find(':') + 1), dir;
        std::vector<std::string> c = split(path, '/');
        for (size_t q = 0; q + 1 < c.size(); ++q) { dir += (q ? "/" : "") + c[q]; mkdir(dir.c_str(), 0755); }
        if (kind == "garbage" || kind == "empty") { std::ofstream g(path.c_str()); if (kind == "garbage") { g << "this is no library"; } }
        else if (symlink((std::string(getenv("PLUGINS")) + "/" + kind + ".so").c_str(), path.c_str())) { _exit(71); }
        files.push_back(std::make_pair(path, kind));
        fj.push_back("{\"d\":" + jpath(dir) + ",\"n\":" + quote(c.back()) + ",\"k\":" + quote(kind) + "}");
      }
      std::vector<std::string> p = split(o.s("paths"), ',');
      for (size_t i = 0; i < p.size(); ++i) { if (p[i] != "=") { m->addPluginPath(p[i]); } else { p[i] = some_dir; } pj.push_back(jpath(p[i])); }
      j.raw("files", jlist(fj)).raw("paths", jlist(pj));
    }
    else if (o.name == "init") { j.b("lazy", o.b("lazy")).b("rec", o.b("rec")).b("r", m->initialize(o.b("lazy"), o.b("rec"))); }
    else if (o.name == "state") { j.b("on", m->isInitialized()).b("lazy", m->loadLazy()); }
    else if (o.name == "avail")
    {
      std::list<std::string> l = m->availablePlugins();
      std::vector<std::string> q;
      for (std::list<std::string>::iterator i = l.begin(); i != l.end(); ++i) { q.push_back(quote(*i)); }
      j.raw("ids", jlist(q));
    }
    else if (o.name == "all")
    {
      std::list<Tool *> l = m->plugins();
      std::vector<std::string> q;
      for (std::list<Tool *>::iterator i = l.begin(); i != l.end(); ++i) { q.push_back(jtool(*i)); }
      j.raw("l", jlist(q));
    }
    else if (o.name == "plugin" || o.name == "create")
    {
      Tool *t = o.name == "plugin" ? m->plugin(o.s("id")) : m->createPluginInstance(o.s("id"));
      if (t && o.name == "create") { own.push_back(t); }
      j.s("id", o.s("id")).s("k", t ? t->kind() : "").i("n", t ? t->number() : 0);
    }
    else if (o.name == "hand") { Static *t = new Static(o.s("id"), int(o.i("n"))); m->addStaticPlugin(t); j.s("id", o.s("id")).i("n", t->n); }
    else if (o.name == "drop") { m->removeStaticPlugin(o.s("id")); j.s("id", o.s("id")); }
    else if (o.name == "isstatic") { j.s("id", o.s("id")).b("r", m->isStaticPlugin(o.s("id"))); }
    else if (o.name == "path") { m->addPluginPath(o.s("p")); j.raw("p", jpath(o.s("p"))); }
    else if (o.name == "paths")
    {
      icl_core::plugin::StringList l = m->pluginPaths();
      std::vector<std::string> q;
      for (icl_core::plugin::StringList::iterator i = l.begin(); i != l.end(); ++i) { q.push_back(jpath(*i)); }
      j.raw("l", jlist(q));
    }
    else if (o.name == "errors")
    {
      icl_core::plugin::StringList l = m->errorMessages();
      std::vector<std::string> q;
      for (size_t f = 0; f < files.size(); ++f)
      {
        bool named = false;
        for (icl_core::plugin::StringList::iterator i = l.begin(); i != l.end(); ++i)
        {
          size_t at = i->find(files[f].first), end = at + files[f].first.size();
          named = named || (at != std::string::npos && (end == i->size() || !isalnum((*i)[end])));
        }
        std::string dir = files[f].first.substr(0, files[f].first.rfind('/'));
        if (named) { q.push_back("{\"d\":" + jpath(dir) + ",\"n\":" + quote(split(files[f].first, '/').back()) + ",\"k\":" + quote(files[f].second) + "}"); }
      }
      j.raw("m", jlist(q));
    }
    else if (o.name == "del") { int before = g_gone; delete m; j.i("gone", g_gone - before); }
    else { _exit(71); }
    j.i("made", g_made);
    trace().emit(j);
    if (o.name == "del") { break; }
  }
}

static void episode(const std::vector<Op>& ops)
{
  char root[] = "/tmp/vf_plugin.XXXXXX";
  if (!mkdtemp(root) || chdir(root)) { _exit(71); }
  icl_core::logging::LoggingManager::instance().initialize();
  icl_core::logging::setLogLevel(icl_core::logging::eLL_MUTE);
  { Capture cap; if (ops[0].s("paths").substr(0, 1) == "=") { run(ops, Fixed::instance()); } else { run(ops, Manager::instance()); } }
  if (chdir("/") == 0) { nftw(root, rm, 16, FTW_DEPTH | FTW_PHYS); }
}

int main(int argc, char **argv) { return drive_forked(argc, argv, episode); }
