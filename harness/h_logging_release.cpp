// Logging statements as in a release build without local logging.
#undef _IC_DEBUG_
#undef ICL_CORE_LOCAL_LOGGING
#include "h_logging_say.h"
#include "h_logging_streams.h"
namespace release { namespace s {
void say(icl_core::logging::LogStream& st, Said& r, int l, bool f, const std::string& w, const std::string& t) { r.line = __LINE__; VF_SAY(SLOGGING, st) }
} namespace a {
void say VF_SIGNATURE { (void)r; (void)l; (void)f; (void)w; (void)t; (void)seen; r.line = __LINE__; VF_SAY(LLOGGING, A) }
} namespace b {
void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(LOGGING, B) }
} namespace c {
void say VF_SIGNATURE { r.line = __LINE__; VF_SAY(LOGGING, A) }
} }
