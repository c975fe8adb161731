// The configuration: store, observers, typed reads, batches and lists. One process per episode.
#include "vfork.h"
#include <boost/assign/list_of.hpp>
#include <boost/function.hpp>
#include <boost/lambda/lambda.hpp>
#include "icl_core_config/Config.h"
#include "icl_core_config/ConfigEnum.h"
#include "icl_core_config/ConfigEnumDefault.h"
#include "icl_core_config/ConfigList.h"
#include "icl_core_config/ConfigObserver.h"
#include "icl_core_config/ConfigValue.h"
#include "icl_core_config/ConfigValueDefault.h"
#include "icl_core_config/MemberEnum.h"
#include "icl_core_config/MemberValue.h"
#include <memory>
using namespace vh;
namespace cfg = icl_core::config;
typedef icl_core::String String;

enum Colour { eRed, eGreen, eBlue, eDark };
static const char *colours[] = { "Red", "Green", "blue", "Dark Red", NULL };
static const char *marked[] = { "Red", "Green", "blue", "Dark Red", "END", "Beyond", NULL };

static Capture *cap;
static std::string text(int16_t v) { return std::to_string(v); }
static std::string text(int32_t v) { return std::to_string(v); }
static std::string text(uint32_t v) { return std::to_string(v); }
static std::string text(int64_t v) { return std::to_string(v); }
static std::string text(uint64_t v) { return std::to_string(v); }
static std::string text(double v) { char b[64]; snprintf(b, 64, "%.15g", v); return b; }
static std::string text(bool v) { return v ? "true" : "false"; }
static std::string text(const String& v) { return v; }
static std::string text(Colour v) { return std::to_string(int(v)); }
static void from(const std::string& s, int16_t& v) { v = int16_t(atoll(s.c_str())); }
static void from(const std::string& s, int32_t& v) { v = int32_t(atoll(s.c_str())); }
static void from(const std::string& s, uint32_t& v) { v = uint32_t(atoll(s.c_str())); }
static void from(const std::string& s, int64_t& v) { v = atoll(s.c_str()); }
static void from(const std::string& s, uint64_t& v) { v = strtoull(s.c_str(), NULL, 10); }
static void from(const std::string& s, double& v) { v = strtod(s.c_str(), NULL); }
static void from(const std::string& s, bool& v) { v = s == "true"; }
static void from(const std::string& s, String& v) { v = s; }
static void from(const std::string& s, Colour& v) { v = Colour(atoi(s.c_str())); }

struct Told
{
  std::vector<std::string> list;
  std::string take() { std::string r = jlist(list); list.clear(); return r; }
} told;

struct Observer : cfg::ConfigObserver
{
  int id;
  explicit Observer(int i) : id(i) {}
  virtual void valueChanged(const String& key)
  {
    String v = "nothing";
    cfg::get<String>(key, v);
    told.list.push_back("[" + std::to_string(id) + "," + jbytes(key) + "," + jbytes(v) + "]");
  }
};

//! A variable of some type that is read from the configuration.
struct Var
{
  virtual ~Var() {}
  virtual std::string value() const = 0;
  virtual bool read(const std::string& how, const std::string& key, size_t n) = 0;
  virtual void set(const std::string& key) = 0;
  virtual cfg::impl::ConfigValueIface *member(const std::string& key, bool marker) = 0;
  virtual cfg::impl::ConfigValueIface *member(const std::string& key, const std::string& def, bool marker) = 0;
};

template <typename T>
struct VarOf : Var
{
  T v;
  bool alt;
  VarOf(const std::string& init, bool a) : alt(a) { from(init, v); }
  virtual std::string value() const { return text(v); }
  virtual bool read(const std::string& how, const std::string& key, size_t n)
  {
    if (how == "get") { return alt ? cfg::get<T>(key.c_str(), v) : cfg::get<T>(key, v); }
    if (how == "getdef") { T d = v; v = alt ? cfg::getDefault<T>(key.c_str(), d) : cfg::getDefault<T>(key, d); return true; }
    if (how == "param") { return alt ? cfg::paramOpt<T>(key.c_str(), v) : cfg::paramOpt<T>(key, v); }
    if (how == "paramdef") { T d = v; v = alt ? cfg::paramOptDefault<T>(key.c_str(), d) : cfg::paramOptDefault<T>(key, d); return true; }
    return cfg::paramNonOpt<T>(n, v);
  }
  virtual void set(const std::string& key) { if (alt) { cfg::setValue<T>(key.c_str(), v); } else { cfg::setValue<T>(key, v); } }
  virtual cfg::impl::ConfigValueIface *member(const std::string& key, bool marker) { return new cfg::ConfigValue<T>(key, v); }
  virtual cfg::impl::ConfigValueIface *member(const std::string& key, const std::string& def, bool marker)
  {
    T d;
    from(def, d);
    return new cfg::ConfigValueDefault<T>(key, v, d);
  }
};

template <>
struct VarOf<Colour> : Var
{
  Colour v;
  bool alt;
  VarOf(const std::string& init, bool a) : alt(a) { from(init, v); }
  virtual std::string value() const { return text(v); }
  virtual bool read(const std::string& how, const std::string& key, size_t n)
  {
    if (how == "get") { return alt ? cfg::get<Colour>(key.c_str(), v, marked, "END") : cfg::get<Colour>(key, v, colours); }
    if (how == "param") { return alt ? cfg::paramOpt<Colour>(key.c_str(), v, marked, "END") : cfg::paramOpt<Colour>(key, v, colours); }
    if (how == "non") { return alt ? cfg::paramNonOpt<Colour>(n, v, marked, "END") : cfg::paramNonOpt<Colour>(n, v, colours); }
    _exit(71);
  }
  virtual void set(const std::string& key) { _exit(71); }
  virtual cfg::impl::ConfigValueIface *member(const std::string& key, bool marker)
  {
    return marker ? new cfg::ConfigEnum<Colour>(key, v, marked, "END") : new cfg::ConfigEnum<Colour>(key, v, colours);
  }
  virtual cfg::impl::ConfigValueIface *member(const std::string& key, const std::string& def, bool marker)
  {
    Colour d;
    from(def, d);
    return marker ? new cfg::ConfigEnumDefault<Colour>(key, v, d, marked, "END") : new cfg::ConfigEnumDefault<Colour>(key, v, d, colours);
  }
};

static Var *var(const std::string& t, const std::string& init, bool alt)
{
  if (t == "i16") { return new VarOf<int16_t>(init, alt); }
  if (t == "i32") { return new VarOf<int32_t>(init, alt); }
  if (t == "u32") { return new VarOf<uint32_t>(init, alt); }
  if (t == "i64") { return new VarOf<int64_t>(init, alt); }
  if (t == "u64") { return new VarOf<uint64_t>(init, alt); }
  if (t == "dbl") { return new VarOf<double>(init, alt); }
  if (t == "bool") { return new VarOf<bool>(init, alt); }
  if (t == "str") { return new VarOf<String>(init, alt); }
  if (t == "enum") { return new VarOf<Colour>(init, alt); }
  _exit(71);
}

struct Elem
{
  int32_t i; bool b; String s; Colour c;
  Elem() : i(0), b(false), c(eRed) {}
};
struct GetI { int32_t& operator () (Elem& e) const { return e.i; } };
struct GetB { bool& operator () (Elem& e) const { return e.b; } };
struct GetS { String& operator () (Elem& e) const { return e.s; } };
struct GetC { Colour& operator () (Elem& e) const { return e.c; } };

static cfg::impl::MemberValueIface<Elem> *element_member(const std::string& t, const std::string& k, bool alt)
{
  if (t == "i32") { return new cfg::MemberValue<int32_t, Elem>(k, GetI()); }
  if (t == "bool") { return new cfg::MemberValue<bool, Elem>(k, GetB()); }
  if (t == "str") { return new cfg::MemberValue<String, Elem>(k, GetS()); }
  if (alt) { return new cfg::MemberEnum<Colour, Elem>(k, GetC(), std::vector<std::string>(colours, colours + 4)); }
  return new cfg::MemberEnum<Colour, Elem>(k, GetC(), marked, "END");
}

static std::string esc(const std::string& s)
{
  std::string o;
  for (size_t p = 0; p < s.size(); ++p)
  {
    if (strchr(".[]{}()\\*+?|^$/", s[p])) { o += '\\'; }
    o += s[p];
  }
  return o;
}

static void episode(const std::vector<Op>& ep)
{
  cap = new Capture;
  cfg::ConfigManager& m = cfg::ConfigManager::instance();
  std::map<int, Observer *> obs;
  std::vector<Op> members;
  for (size_t i = 0; i < ep.size(); ++i)
  {
    const Op& op = ep[i];
    const std::string& f = op.name;
    J j(f.c_str());
    if (f == "m") { members.push_back(op); continue; }
    if (f == "cmd")
    {
      for (int k = 1; k <= 3; ++k) { cfg::addParameter(cfg::GetoptParameter("p" + std::to_string(k) + ":", "q" + std::to_string(k), "")); }
      cfg::addParameter(cfg::GetoptParameter("fl", "f", ""));
      std::vector<std::string> opts, non;
      std::vector<char *> argv(1, strdup("prog"));
      for (size_t k = 0; k < members.size(); ++k)
      {
        const Op& a = members[k];
        std::string n = a.bytes("k"), v = a.bytes("v");
        if (n == "") { argv.push_back(strdup(v.c_str())); non.push_back(jbytes(v)); }
        else if (n == "fl") { argv.push_back(strdup(a.b("alt") ? "-f" : "--fl")); opts.push_back("[" + jbytes("fl") + "," + jbytes("yes") + "]"); }
        else
        {
          if (a.b("alt")) { argv.push_back(strdup(("-q" + n.substr(1)).c_str())); argv.push_back(strdup(v.c_str())); }
          else { argv.push_back(strdup(("--" + n + "=" + v).c_str())); }
          opts.push_back("[" + jbytes(n) + "," + jbytes(v) + "]");
        }
      }
      members.clear();
      int argc = int(argv.size());
      argv.push_back(NULL);
      j.b("ok", cfg::initialize(argc, &argv[0])).raw("opts", jlist(opts)).raw("non", jlist(non));
    }
    else if (f == "set" || f == "insert")
    {
      std::string k = op.bytes("k"), v = op.bytes("v");
      bool had = m.hasKey(k), fresh = !had;
      if (f == "insert") { fresh = m.insert(k, v); }
      else if (op.b("alt")) { cfg::setValue(k, v); }
      else { fresh = m.setValue<String>(k, v); }
      j.bytes("k", k).bytes("v", v).b("fresh", fresh);
    }
    else if (f == "setval")
    {
      std::unique_ptr<Var> v(var(op.raw("t"), op.bytes("v"), op.b("alt")));
      std::string k = op.bytes("k"), t;
      v->set(k);
      m.get(k, t);
      j.bytes("k", k).bytes("v", op.bytes("v")).s("t", op.raw("t")).bytes("text", t);
    }
    else if (f == "register")
    {
      int o = int(op.i("o"));
      std::string k = op.bytes("k");
      if (!obs.count(o)) { obs[o] = new Observer(o); }
      if (k == "" && op.b("alt")) { m.registerObserver(obs[o]); } else { m.registerObserver(obs[o], k); }
      j.i("o", o).bytes("k", k);
    }
    else if (f == "unregister")
    {
      int o = int(op.i("o"));
      if (op.b("alt")) { delete obs[o]; obs.erase(o); }          // goes with its observer
      else if (obs.count(o)) { m.unregisterObserver(obs[o]); }
      j.i("o", o);
    }
    else if (f == "get")
    {
      std::string k = op.bytes("k"), v = "*";
      bool found = op.b("alt") ? m.get(k, v) : cfg::get<String>(k, v);
      j.bytes("k", k).b("found", found).b("has", m.hasKey(k)).bytes("v", v);
    }
    else if (f == "query")
    {
      std::string pre = op.bytes("pre"), suf = op.bytes("suf"), rx;
      long kind = op.i("kind");
      rx = kind == 1 ? "(" + esc(pre) + ")(" + esc(suf) + ")" : esc(pre) + (kind == 0 ? "(.*)" : "([^\\/]*)") + esc(suf);
      cfg::ConfigIterator it = cfg::find(rx);
      std::vector<std::string> r;
      while (it.next() && r.size() < 1000)
      {
        std::vector<std::string> g;
        for (size_t k = 0; k < 4; ++k) { g.push_back(jbytes(it.matchGroup(k))); }
        J x;
        x.bytes("k", it.key()).bytes("v", it.value()).raw("g", jlist(g));
        r.push_back(x.str());
      }
      j.bytes("pre", pre).bytes("suf", suf).i("kind", kind).raw("res", jlist(r));
    }
    else if (f == "dump")
    {
      size_t at = cap->text().size();
      cfg::dump();
      j.bytes("text", cap->text().substr(at));
    }
    else if (f == "read")
    {
      std::string k = op.bytes("k"), how = op.raw("how"), init = op.bytes("init");
      std::unique_ptr<Var> v(var(op.raw("t"), init, op.b("alt")));
      bool ok = v->read(how, k, size_t(op.i("n")));
      j.bytes("k", k).s("how", how).i("n", op.i("n")).s("t", op.raw("t")).bytes("init", init).b("ok", ok).bytes("v", v->value());
    }
    else if (f == "batch")
    {
      std::string pre = op.bytes("prefix");
      bool clean = op.b("clean"), report = op.b("report"), ok;
      std::vector<std::unique_ptr<Var> > vars;
      cfg::ConfigValueList list;
      std::vector<cfg::impl::ConfigValueIface *> arr;
      std::vector<std::string> ms, vals;
      for (size_t k = 0; k < members.size(); ++k)
      {
        const Op& a = members[k];
        std::string key = a.bytes("k");
        vars.emplace_back(var(a.raw("t"), a.bytes("init"), false));
        cfg::impl::ConfigValueIface *c = a.b("def") ? vars.back()->member(key, a.bytes("dv"), a.b("alt")) : vars.back()->member(key, a.b("alt"));
        list.push_back(c);
        arr.push_back(c);
        J x;
        x.bytes("k", key).s("t", a.raw("t")).b("def", a.b("def")).bytes("dv", a.bytes("dv")).bytes("init", a.bytes("init"));
        ms.push_back(x.str());
      }
      members.clear();
      icl_core::logging::LogStream& ls = icl_core::logging::Nirwana::instance();
      if (pre != "") { ok = cfg::get(pre, list, ls, clean, report); }
      else if (op.b("alt") && !arr.empty())
      {
        arr.push_back(NULL);
        ok = cfg::get(&arr[0], ls, clean, report);
        arr.pop_back();
      }
      else { ok = cfg::get(list, ls, clean, report); }
      if (!clean) { for (size_t k = 0; k < arr.size(); ++k) { delete arr[k]; } }
      for (size_t k = 0; k < vars.size(); ++k) { vals.push_back(jbytes(vars[k]->value())); }
      j.bytes("prefix", pre).raw("ms", jlist(ms)).b("ok", ok).raw("vals", jlist(vals));
    }
    else if (f == "list")
    {
      std::string pre = op.bytes("prefix");
      std::list<cfg::impl::MemberValueIface<Elem> *> ml;
      std::vector<std::string> ms, els;
      for (size_t k = 0; k < members.size(); ++k)
      {
        ml.push_back(element_member(members[k].raw("t"), members[k].bytes("k"), op.b("alt")));
        J x;
        x.bytes("k", members[k].bytes("k")).s("t", members[k].raw("t"));
        ms.push_back(x.str());
      }
      members.clear();
      std::list<Elem> out;
      cfg::impl::ConfigValueIface *l = new cfg::ConfigList<Elem>(pre, ml, std::back_inserter(out));
      bool ok = cfg::get(boost::assign::list_of<cfg::impl::ConfigValueIface *>(l).operator cfg::ConfigValueList(), icl_core::logging::Nirwana::instance());
      for (std::list<cfg::impl::MemberValueIface<Elem> *>::iterator it = ml.begin(); it != ml.end(); ++it) { delete *it; }
      for (std::list<Elem>::iterator it = out.begin(); it != out.end(); ++it)
      {
        els.push_back("[" + jbytes(text(it->i)) + "," + jbytes(text(it->b)) + "," + jbytes(it->s) + "," + jbytes(text(it->c)) + "]");
      }
      j.bytes("prefix", pre).raw("ms", jlist(ms)).b("ok", ok).raw("out", jlist(els));
    }
    else if (f != "new") { _exit(71); }
    j.raw("told", told.take());
    trace().emit(j);
  }
  for (std::map<int, Observer *>::iterator it = obs.begin(); it != obs.end(); ++it) { delete it->second; }
}

int main(int argc, char **argv) { return drive_forked(argc, argv, episode); }
