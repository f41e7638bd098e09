// One function per logging macro (debug build): vf_m_<macro>.
#define _IC_DEBUG_
#define ICL_CORE_LOCAL_LOGGING
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingMacros_LLOGGING.h>
#include <icl_core_logging/LoggingMacros_LLOGGING_FMT.h>
#include "logmacros.inc"
