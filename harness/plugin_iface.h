// The interface of the plugins of h_plugin, and what they tell the program.
#ifndef PLUGIN_IFACE_H
#define PLUGIN_IFACE_H
#include <string>
#include <typeinfo>
extern "C" int vf_made();   //!< number of the new instance
extern "C" void vf_gone();
#endif
