// The library's own messages are switched off before any schedule is run; the thread that would write them is not one of ours.
#ifndef CONC_LOG_H
#define CONC_LOG_H
#include "icl_core_logging/Logging.h"
inline void no_messages()
{
  icl_core::logging::LoggingManager::instance().initialize();
  icl_core::logging::setLogLevel(icl_core::logging::eLL_MUTE);
}
#endif
