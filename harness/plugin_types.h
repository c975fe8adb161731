#ifndef PLUGIN_TYPES_H
#define PLUGIN_TYPES_H
#include "icl_core_plugin/Plugin.h"
struct Tool
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Tool)
  virtual ~Tool() {}
  virtual int number() const = 0;
  virtual const char *kind() const = 0;
};
struct Another
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Another)
  virtual ~Another() {}
  virtual int number() const = 0;
  virtual const char *kind() const = 0;
};
#endif
