// A plugin library: KIND, ID and how it is broken are given by the build.
#include "plugin_iface.h"
#include "plugin_types.h"
#if defined PLUGIN_GOOD
struct Impl : public BASE
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN
  int n;
  Impl() : n(vf_made()) {}
  virtual ~Impl() { vf_gone(); }
  virtual int number() const { return n; }
  virtual const char *kind() const { return KIND; }
};
ICL_CORE_PLUGIN_REGISTER_PLUGIN(BASE, Impl, ID)
#else
#ifndef NOID
extern "C" const char *identifier() { return ID; }
#endif
#ifndef NOBASE
extern "C" const char *basetype() { return typeid(BASE).name(); }
#endif
#ifndef NOLOAD
extern "C" BASE *load_plugin() { return NULL; }
#endif
#endif
