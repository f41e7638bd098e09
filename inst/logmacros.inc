// generated list of all logging macros
#ifdef VF_RELEASE
# define VF(x) vf_n_##x
#else
# define VF(x) vf_m_##x
#endif
#ifdef VF_RELEASE
DECLARE_LOG_STREAM(VfLogR)
# define VfLog VfLogR
#else
DECLARE_LOG_STREAM(VfLog)
#endif
extern "C" int vf_probe();
extern "C" const char *vf_object();

struct VF(Debugged)
{
  bool Debug() const;
  void all();
};
#ifdef LOGGING_ERROR
void VF(LOGGING_ERROR)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_ERROR(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_ERROR is missing"
#endif
#ifdef LOGGING_WARNING
void VF(LOGGING_WARNING)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_WARNING(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_WARNING is missing"
#endif
#ifdef LOGGING_INFO
void VF(LOGGING_INFO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_INFO(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_INFO is missing"
#endif
#ifdef LOGGING_DEBUG
void VF(LOGGING_DEBUG)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_DEBUG(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_DEBUG is missing"
#endif
#ifdef LOGGING_TRACE
void VF(LOGGING_TRACE)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_TRACE(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_TRACE is missing"
#endif
#ifdef LOGGING_ERROR_C
void VF(LOGGING_ERROR_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_ERROR_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_ERROR_C is missing"
#endif
#ifdef LOGGING_WARNING_C
void VF(LOGGING_WARNING_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_WARNING_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_WARNING_C is missing"
#endif
#ifdef LOGGING_INFO_C
void VF(LOGGING_INFO_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_INFO_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_INFO_C is missing"
#endif
#ifdef LOGGING_DEBUG_C
void VF(LOGGING_DEBUG_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_DEBUG_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_DEBUG_C is missing"
#endif
#ifdef LOGGING_TRACE_C
void VF(LOGGING_TRACE_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_TRACE_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_TRACE_C is missing"
#endif
#ifdef LOGGING_ERROR_CO
void VF(LOGGING_ERROR_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_ERROR_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_ERROR_CO is missing"
#endif
#ifdef LOGGING_WARNING_CO
void VF(LOGGING_WARNING_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_WARNING_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_WARNING_CO is missing"
#endif
#ifdef LOGGING_INFO_CO
void VF(LOGGING_INFO_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_INFO_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_INFO_CO is missing"
#endif
#ifdef LOGGING_DEBUG_CO
void VF(LOGGING_DEBUG_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_DEBUG_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_DEBUG_CO is missing"
#endif
#ifdef LOGGING_TRACE_CO
void VF(LOGGING_TRACE_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_TRACE_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LOGGING_TRACE_CO is missing"
#endif
#ifdef LOGGING_FMT_ERROR
void VF(LOGGING_FMT_ERROR)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_ERROR(VfLog, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_ERROR is missing"
#endif
#ifdef LOGGING_FMT_WARNING
void VF(LOGGING_FMT_WARNING)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_WARNING(VfLog, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_WARNING is missing"
#endif
#ifdef LOGGING_FMT_INFO
void VF(LOGGING_FMT_INFO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_INFO(VfLog, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_INFO is missing"
#endif
#ifdef LOGGING_FMT_DEBUG
void VF(LOGGING_FMT_DEBUG)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_DEBUG(VfLog, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_DEBUG is missing"
#endif
#ifdef LOGGING_FMT_TRACE
void VF(LOGGING_FMT_TRACE)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_TRACE(VfLog, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_TRACE is missing"
#endif
#ifdef LOGGING_FMT_ERROR_C
void VF(LOGGING_FMT_ERROR_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_ERROR_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_ERROR_C is missing"
#endif
#ifdef LOGGING_FMT_WARNING_C
void VF(LOGGING_FMT_WARNING_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_WARNING_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_WARNING_C is missing"
#endif
#ifdef LOGGING_FMT_INFO_C
void VF(LOGGING_FMT_INFO_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_INFO_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_INFO_C is missing"
#endif
#ifdef LOGGING_FMT_DEBUG_C
void VF(LOGGING_FMT_DEBUG_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_DEBUG_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_DEBUG_C is missing"
#endif
#ifdef LOGGING_FMT_TRACE_C
void VF(LOGGING_FMT_TRACE_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_TRACE_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LOGGING_FMT_TRACE_C is missing"
#endif
#ifdef LOGGING_FMT_ERROR_CO
void VF(LOGGING_FMT_ERROR_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_ERROR_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LOGGING_FMT_ERROR_CO is missing"
#endif
#ifdef LOGGING_FMT_WARNING_CO
void VF(LOGGING_FMT_WARNING_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_WARNING_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LOGGING_FMT_WARNING_CO is missing"
#endif
#ifdef LOGGING_FMT_INFO_CO
void VF(LOGGING_FMT_INFO_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_INFO_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LOGGING_FMT_INFO_CO is missing"
#endif
#ifdef LOGGING_FMT_DEBUG_CO
void VF(LOGGING_FMT_DEBUG_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_DEBUG_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LOGGING_FMT_DEBUG_CO is missing"
#endif
#ifdef LOGGING_FMT_TRACE_CO
void VF(LOGGING_FMT_TRACE_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LOGGING_FMT_TRACE_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LOGGING_FMT_TRACE_CO is missing"
#endif
#ifdef SLOGGING_ERROR
void VF(SLOGGING_ERROR)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_ERROR(s, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_ERROR is missing"
#endif
#ifdef SLOGGING_WARNING
void VF(SLOGGING_WARNING)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_WARNING(s, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_WARNING is missing"
#endif
#ifdef SLOGGING_INFO
void VF(SLOGGING_INFO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_INFO(s, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_INFO is missing"
#endif
#ifdef SLOGGING_DEBUG
void VF(SLOGGING_DEBUG)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_DEBUG(s, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_DEBUG is missing"
#endif
#ifdef SLOGGING_TRACE
void VF(SLOGGING_TRACE)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_TRACE(s, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_TRACE is missing"
#endif
#ifdef SLOGGING_ERROR_C
void VF(SLOGGING_ERROR_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_ERROR_C(s, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_ERROR_C is missing"
#endif
#ifdef SLOGGING_WARNING_C
void VF(SLOGGING_WARNING_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_WARNING_C(s, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_WARNING_C is missing"
#endif
#ifdef SLOGGING_INFO_C
void VF(SLOGGING_INFO_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_INFO_C(s, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_INFO_C is missing"
#endif
#ifdef SLOGGING_DEBUG_C
void VF(SLOGGING_DEBUG_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_DEBUG_C(s, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_DEBUG_C is missing"
#endif
#ifdef SLOGGING_TRACE_C
void VF(SLOGGING_TRACE_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_TRACE_C(s, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_TRACE_C is missing"
#endif
#ifdef SLOGGING_ERROR_CO
void VF(SLOGGING_ERROR_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_ERROR_CO(s, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_ERROR_CO is missing"
#endif
#ifdef SLOGGING_WARNING_CO
void VF(SLOGGING_WARNING_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_WARNING_CO(s, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_WARNING_CO is missing"
#endif
#ifdef SLOGGING_INFO_CO
void VF(SLOGGING_INFO_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_INFO_CO(s, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_INFO_CO is missing"
#endif
#ifdef SLOGGING_DEBUG_CO
void VF(SLOGGING_DEBUG_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_DEBUG_CO(s, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_DEBUG_CO is missing"
#endif
#ifdef SLOGGING_TRACE_CO
void VF(SLOGGING_TRACE_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_TRACE_CO(s, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "SLOGGING_TRACE_CO is missing"
#endif
#ifdef SLOGGING_FMT_ERROR
void VF(SLOGGING_FMT_ERROR)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_ERROR(s, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_ERROR is missing"
#endif
#ifdef SLOGGING_FMT_WARNING
void VF(SLOGGING_FMT_WARNING)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_WARNING(s, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_WARNING is missing"
#endif
#ifdef SLOGGING_FMT_INFO
void VF(SLOGGING_FMT_INFO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_INFO(s, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_INFO is missing"
#endif
#ifdef SLOGGING_FMT_DEBUG
void VF(SLOGGING_FMT_DEBUG)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_DEBUG(s, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_DEBUG is missing"
#endif
#ifdef SLOGGING_FMT_TRACE
void VF(SLOGGING_FMT_TRACE)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_TRACE(s, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_TRACE is missing"
#endif
#ifdef SLOGGING_FMT_ERROR_C
void VF(SLOGGING_FMT_ERROR_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_ERROR_C(s, VfClass, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_ERROR_C is missing"
#endif
#ifdef SLOGGING_FMT_WARNING_C
void VF(SLOGGING_FMT_WARNING_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_WARNING_C(s, VfClass, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_WARNING_C is missing"
#endif
#ifdef SLOGGING_FMT_INFO_C
void VF(SLOGGING_FMT_INFO_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_INFO_C(s, VfClass, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_INFO_C is missing"
#endif
#ifdef SLOGGING_FMT_DEBUG_C
void VF(SLOGGING_FMT_DEBUG_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_DEBUG_C(s, VfClass, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_DEBUG_C is missing"
#endif
#ifdef SLOGGING_FMT_TRACE_C
void VF(SLOGGING_FMT_TRACE_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_TRACE_C(s, VfClass, "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_TRACE_C is missing"
#endif
#ifdef SLOGGING_FMT_ERROR_CO
void VF(SLOGGING_FMT_ERROR_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_ERROR_CO(s, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_ERROR_CO is missing"
#endif
#ifdef SLOGGING_FMT_WARNING_CO
void VF(SLOGGING_FMT_WARNING_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_WARNING_CO(s, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_WARNING_CO is missing"
#endif
#ifdef SLOGGING_FMT_INFO_CO
void VF(SLOGGING_FMT_INFO_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_INFO_CO(s, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_INFO_CO is missing"
#endif
#ifdef SLOGGING_FMT_DEBUG_CO
void VF(SLOGGING_FMT_DEBUG_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_DEBUG_CO(s, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_DEBUG_CO is missing"
#endif
#ifdef SLOGGING_FMT_TRACE_CO
void VF(SLOGGING_FMT_TRACE_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  SLOGGING_FMT_TRACE_CO(s, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "SLOGGING_FMT_TRACE_CO is missing"
#endif
#ifdef MLOGGING_ERROR
struct VF(d_MLOGGING_ERROR) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_ERROR)::run()
{
  MLOGGING_ERROR(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_ERROR is missing"
#endif
#ifdef MLOGGING_WARNING
struct VF(d_MLOGGING_WARNING) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_WARNING)::run()
{
  MLOGGING_WARNING(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_WARNING is missing"
#endif
#ifdef MLOGGING_INFO
struct VF(d_MLOGGING_INFO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_INFO)::run()
{
  MLOGGING_INFO(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_INFO is missing"
#endif
#ifdef MLOGGING_DEBUG
struct VF(d_MLOGGING_DEBUG) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_DEBUG)::run()
{
  MLOGGING_DEBUG(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_DEBUG is missing"
#endif
#ifdef MLOGGING_TRACE
struct VF(d_MLOGGING_TRACE) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_TRACE)::run()
{
  MLOGGING_TRACE(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_TRACE is missing"
#endif
#ifdef MLOGGING_ERROR_C
struct VF(d_MLOGGING_ERROR_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_ERROR_C)::run()
{
  MLOGGING_ERROR_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_ERROR_C is missing"
#endif
#ifdef MLOGGING_WARNING_C
struct VF(d_MLOGGING_WARNING_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_WARNING_C)::run()
{
  MLOGGING_WARNING_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_WARNING_C is missing"
#endif
#ifdef MLOGGING_INFO_C
struct VF(d_MLOGGING_INFO_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_INFO_C)::run()
{
  MLOGGING_INFO_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_INFO_C is missing"
#endif
#ifdef MLOGGING_DEBUG_C
struct VF(d_MLOGGING_DEBUG_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_DEBUG_C)::run()
{
  MLOGGING_DEBUG_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_DEBUG_C is missing"
#endif
#ifdef MLOGGING_TRACE_C
struct VF(d_MLOGGING_TRACE_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_TRACE_C)::run()
{
  MLOGGING_TRACE_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_TRACE_C is missing"
#endif
#ifdef MLOGGING_ERROR_CO
struct VF(d_MLOGGING_ERROR_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_ERROR_CO)::run()
{
  MLOGGING_ERROR_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_ERROR_CO is missing"
#endif
#ifdef MLOGGING_WARNING_CO
struct VF(d_MLOGGING_WARNING_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_WARNING_CO)::run()
{
  MLOGGING_WARNING_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_WARNING_CO is missing"
#endif
#ifdef MLOGGING_INFO_CO
struct VF(d_MLOGGING_INFO_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_INFO_CO)::run()
{
  MLOGGING_INFO_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_INFO_CO is missing"
#endif
#ifdef MLOGGING_DEBUG_CO
struct VF(d_MLOGGING_DEBUG_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_DEBUG_CO)::run()
{
  MLOGGING_DEBUG_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_DEBUG_CO is missing"
#endif
#ifdef MLOGGING_TRACE_CO
struct VF(d_MLOGGING_TRACE_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_TRACE_CO)::run()
{
  MLOGGING_TRACE_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "MLOGGING_TRACE_CO is missing"
#endif
#ifdef MLOGGING_FMT_ERROR
struct VF(d_MLOGGING_FMT_ERROR) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_ERROR)::run()
{
  MLOGGING_FMT_ERROR(VfLog, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_ERROR is missing"
#endif
#ifdef MLOGGING_FMT_WARNING
struct VF(d_MLOGGING_FMT_WARNING) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_WARNING)::run()
{
  MLOGGING_FMT_WARNING(VfLog, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_WARNING is missing"
#endif
#ifdef MLOGGING_FMT_INFO
struct VF(d_MLOGGING_FMT_INFO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_INFO)::run()
{
  MLOGGING_FMT_INFO(VfLog, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_INFO is missing"
#endif
#ifdef MLOGGING_FMT_DEBUG
struct VF(d_MLOGGING_FMT_DEBUG) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_DEBUG)::run()
{
  MLOGGING_FMT_DEBUG(VfLog, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_DEBUG is missing"
#endif
#ifdef MLOGGING_FMT_TRACE
struct VF(d_MLOGGING_FMT_TRACE) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_TRACE)::run()
{
  MLOGGING_FMT_TRACE(VfLog, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_TRACE is missing"
#endif
#ifdef MLOGGING_FMT_ERROR_C
struct VF(d_MLOGGING_FMT_ERROR_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_ERROR_C)::run()
{
  MLOGGING_FMT_ERROR_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_ERROR_C is missing"
#endif
#ifdef MLOGGING_FMT_WARNING_C
struct VF(d_MLOGGING_FMT_WARNING_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_WARNING_C)::run()
{
  MLOGGING_FMT_WARNING_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_WARNING_C is missing"
#endif
#ifdef MLOGGING_FMT_INFO_C
struct VF(d_MLOGGING_FMT_INFO_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_INFO_C)::run()
{
  MLOGGING_FMT_INFO_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_INFO_C is missing"
#endif
#ifdef MLOGGING_FMT_DEBUG_C
struct VF(d_MLOGGING_FMT_DEBUG_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_DEBUG_C)::run()
{
  MLOGGING_FMT_DEBUG_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_DEBUG_C is missing"
#endif
#ifdef MLOGGING_FMT_TRACE_C
struct VF(d_MLOGGING_FMT_TRACE_C) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_TRACE_C)::run()
{
  MLOGGING_FMT_TRACE_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_TRACE_C is missing"
#endif
#ifdef MLOGGING_FMT_ERROR_CO
struct VF(d_MLOGGING_FMT_ERROR_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_ERROR_CO)::run()
{
  MLOGGING_FMT_ERROR_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_ERROR_CO is missing"
#endif
#ifdef MLOGGING_FMT_WARNING_CO
struct VF(d_MLOGGING_FMT_WARNING_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_WARNING_CO)::run()
{
  MLOGGING_FMT_WARNING_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_WARNING_CO is missing"
#endif
#ifdef MLOGGING_FMT_INFO_CO
struct VF(d_MLOGGING_FMT_INFO_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_INFO_CO)::run()
{
  MLOGGING_FMT_INFO_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_INFO_CO is missing"
#endif
#ifdef MLOGGING_FMT_DEBUG_CO
struct VF(d_MLOGGING_FMT_DEBUG_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_DEBUG_CO)::run()
{
  MLOGGING_FMT_DEBUG_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_DEBUG_CO is missing"
#endif
#ifdef MLOGGING_FMT_TRACE_CO
struct VF(d_MLOGGING_FMT_TRACE_CO) : VF(Debugged)
{
  void run();
};
void VF(d_MLOGGING_FMT_TRACE_CO)::run()
{
  MLOGGING_FMT_TRACE_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "MLOGGING_FMT_TRACE_CO is missing"
#endif
#ifdef LLOGGING_ERROR
void VF(LLOGGING_ERROR)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_ERROR(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_ERROR is missing"
#endif
#ifdef LLOGGING_WARNING
void VF(LLOGGING_WARNING)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_WARNING(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_WARNING is missing"
#endif
#ifdef LLOGGING_INFO
void VF(LLOGGING_INFO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_INFO(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_INFO is missing"
#endif
#ifdef LLOGGING_DEBUG
void VF(LLOGGING_DEBUG)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_DEBUG(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_DEBUG is missing"
#endif
#ifdef LLOGGING_TRACE
void VF(LLOGGING_TRACE)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_TRACE(VfLog, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_TRACE is missing"
#endif
#ifdef LLOGGING_ERROR_C
void VF(LLOGGING_ERROR_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_ERROR_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_ERROR_C is missing"
#endif
#ifdef LLOGGING_WARNING_C
void VF(LLOGGING_WARNING_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_WARNING_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_WARNING_C is missing"
#endif
#ifdef LLOGGING_INFO_C
void VF(LLOGGING_INFO_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_INFO_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_INFO_C is missing"
#endif
#ifdef LLOGGING_DEBUG_C
void VF(LLOGGING_DEBUG_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_DEBUG_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_DEBUG_C is missing"
#endif
#ifdef LLOGGING_TRACE_C
void VF(LLOGGING_TRACE_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_TRACE_C(VfLog, VfClass, vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_TRACE_C is missing"
#endif
#ifdef LLOGGING_ERROR_CO
void VF(LLOGGING_ERROR_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_ERROR_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_ERROR_CO is missing"
#endif
#ifdef LLOGGING_WARNING_CO
void VF(LLOGGING_WARNING_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_WARNING_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_WARNING_CO is missing"
#endif
#ifdef LLOGGING_INFO_CO
void VF(LLOGGING_INFO_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_INFO_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_INFO_CO is missing"
#endif
#ifdef LLOGGING_DEBUG_CO
void VF(LLOGGING_DEBUG_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_DEBUG_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_DEBUG_CO is missing"
#endif
#ifdef LLOGGING_TRACE_CO
void VF(LLOGGING_TRACE_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_TRACE_CO(VfLog, VfClass, vf_object(), vf_probe() << ::icl_core::logging::endl);
}
#else
# error "LLOGGING_TRACE_CO is missing"
#endif
#ifdef LLOGGING_FMT_ERROR
void VF(LLOGGING_FMT_ERROR)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_ERROR(VfLog, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_ERROR is missing"
#endif
#ifdef LLOGGING_FMT_WARNING
void VF(LLOGGING_FMT_WARNING)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_WARNING(VfLog, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_WARNING is missing"
#endif
#ifdef LLOGGING_FMT_INFO
void VF(LLOGGING_FMT_INFO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_INFO(VfLog, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_INFO is missing"
#endif
#ifdef LLOGGING_FMT_DEBUG
void VF(LLOGGING_FMT_DEBUG)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_DEBUG(VfLog, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_DEBUG is missing"
#endif
#ifdef LLOGGING_FMT_TRACE
void VF(LLOGGING_FMT_TRACE)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_TRACE(VfLog, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_TRACE is missing"
#endif
#ifdef LLOGGING_FMT_ERROR_C
void VF(LLOGGING_FMT_ERROR_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_ERROR_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_ERROR_C is missing"
#endif
#ifdef LLOGGING_FMT_WARNING_C
void VF(LLOGGING_FMT_WARNING_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_WARNING_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_WARNING_C is missing"
#endif
#ifdef LLOGGING_FMT_INFO_C
void VF(LLOGGING_FMT_INFO_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_INFO_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_INFO_C is missing"
#endif
#ifdef LLOGGING_FMT_DEBUG_C
void VF(LLOGGING_FMT_DEBUG_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_DEBUG_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_DEBUG_C is missing"
#endif
#ifdef LLOGGING_FMT_TRACE_C
void VF(LLOGGING_FMT_TRACE_C)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_TRACE_C(VfLog, VfClass, "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_TRACE_C is missing"
#endif
#ifdef LLOGGING_FMT_ERROR_CO
void VF(LLOGGING_FMT_ERROR_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_ERROR_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_ERROR_CO is missing"
#endif
#ifdef LLOGGING_FMT_WARNING_CO
void VF(LLOGGING_FMT_WARNING_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_WARNING_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_WARNING_CO is missing"
#endif
#ifdef LLOGGING_FMT_INFO_CO
void VF(LLOGGING_FMT_INFO_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_INFO_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_INFO_CO is missing"
#endif
#ifdef LLOGGING_FMT_DEBUG_CO
void VF(LLOGGING_FMT_DEBUG_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_DEBUG_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_DEBUG_CO is missing"
#endif
#ifdef LLOGGING_FMT_TRACE_CO
void VF(LLOGGING_FMT_TRACE_CO)(::icl_core::logging::LogStream& s)
{
  (void)s;
  LLOGGING_FMT_TRACE_CO(VfLog, VfClass, vf_object(), "%d", vf_probe());
}
#else
# error "LLOGGING_FMT_TRACE_CO is missing"
#endif
