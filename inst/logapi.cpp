// Uses of the accessors of the logging streams, which are inline.
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>

using namespace icl_core::logging;


bool vf_is_active(LogStream& s, bool a) { s.setActive(a); return s.isActive(); }
LogLevel vf_output_level(LogOutputStream& s, LogLevel l) { s.setLogLevel(l); return s.getLogLevel(); }
const char *vf_name(LogStream& s) { return s.nameCStr(); }
