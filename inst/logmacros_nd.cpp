// One function per logging macro (release build without local logging): vf_n_<macro>.
#undef _IC_DEBUG_
#undef ICL_CORE_LOCAL_LOGGING
#define VF_RELEASE
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingMacros_LLOGGING.h>
#include <icl_core_logging/LoggingMacros_LLOGGING_FMT.h>
#include "logmacros.inc"
