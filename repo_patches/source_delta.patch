From 6cd30acce019dd5b38f2dcae211fcad06993ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 01/35] fix: SpinLock::tryLock() reports success exactly when
 it took the lock

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From 64e98b915e04333fdcfe46488eda440bc26e8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 02/35] fix: Thread::join() also joins a thread whose run() has
 already returned

The operating system thread was only joined while it was still marked as
running.  A thread which finished on its own was never joined: its
resources leaked, and the Thread object could be destroyed while the
thread was still executing the end of runThread().
---
 src/icl_core/src/icl_core_logging/Thread.cpp | 2 +-
 src/icl_core/src/icl_core_thread/Thread.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.cpp b/src/icl_core/src/icl_core_logging/Thread.cpp
index 4a26fb4..10f730c 100644
--- a/src/icl_core/src/icl_core_logging/Thread.cpp
+++ b/src/icl_core/src/icl_core_logging/Thread.cpp
@@ -83,7 +83,7 @@ Thread::~Thread()
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..0ac2694 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -137,7 +137,7 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
-- 
2.43.0


From a59de6c728a8e061ea2b154b0b87c86628da57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 03/35] fix: a thread is marked as finished before wait() is
 woken up

wait() blocks on the thread mutex and then decides by the finished flag
whether it succeeded, so the flag has to be set before the mutex is
released.
---
 src/icl_core/src/icl_core_thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index 0ac2694..f8247fd 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -241,8 +241,8 @@ void Thread::runThread()
   run();
 
   m_execute = false;
-  m_thread_mutex.unlock();
   m_finished = true;
+  m_thread_mutex.unlock();
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From e3876c9233346d51c33111548e96369b9be29322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 04/35] fix: the timer of a periodic thread is closed and never
 used uninitialised

Every start of a periodic thread created a timer descriptor which was
never closed, and waitPeriod() read from an uninitialised descriptor
before the first start.
---
 .../icl_core_thread/PeriodicThreadImplTimerfd.cpp  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..3c25e41 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -28,6 +28,7 @@
 #include "Logging.h"
 
 #include <sys/timerfd.h>
+#include <unistd.h>
 
 namespace icl_core {
 namespace thread {
@@ -37,15 +38,28 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
     timer_created(false)
 {
   m_info = new struct periodic_info;
+  m_info->timer_fd = -1;
+  m_info->wakeups_missed = 0;
 }
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
+  /* Release the timer of a previous run. */
+  if (timer_created)
+  {
+    timer_created = false;
+    close(m_info->timer_fd);
+  }
+
   /* Create the timer */
   int fd = timerfd_create(CLOCK_MONOTONIC, 0);
   m_info->wakeups_missed = 0;
-- 
2.43.0


From 8d5064dd9d26ace3c4675f65ce863b4fbc311c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 05/35] fix: a periodic thread is stopped before its
 implementation is deleted

The destructor of the base class, which stops a running thread, runs
after the timer implementation was deleted.
---
 src/icl_core/src/icl_core_thread/PeriodicThread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThread.cpp b/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
index c9e98f3..cfba0fd 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
@@ -105,6 +105,10 @@ PeriodicThread::PeriodicThread(const icl_core::String& description,
 
 PeriodicThread::~PeriodicThread()
 {
+  // The thread may still use the implementation.
+  stop();
+  join();
+
   delete m_impl; m_impl = NULL;
 }
 
-- 
2.43.0


From f6a0f21c47ac8344cc2f26a29ec687dd4c86df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 06/35] fix: the operation queue of an active object is only
 used under its mutex

The worker tested and cleared the queue without the mutex, and an
operation which was queued while the thread stopped was neither executed
nor deleted.
---
 .../src/icl_core_thread/ActiveObject.cpp      | 45 ++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..9385ba1 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -42,31 +42,44 @@ void ActiveObject::run()
     if (execute())
     {
       // Process all queued operations.
-      while (!m_operation_queue.empty())
+      ActiveOperation *op = NULL;
+      do
       {
+        op = NULL;
+
         // Try to lock the queue mutex
         if (m_operation_queue_mutex.lock())
         {
           // Extract the next pending operation from the queue.
-          ActiveOperation *op = m_operation_queue.front();
-          m_operation_queue.pop_front();
+          if (!m_operation_queue.empty())
+          {
+            op = m_operation_queue.front();
+            m_operation_queue.pop_front();
+          }
 
           // Release the mutex before executing the operation!
           m_operation_queue_mutex.unlock();
+        }
 
-          // Finally, execute the operation.
+        // Finally, execute the operation.
+        if (op != NULL)
+        {
           op->invoke();
           delete op;
         }
-      }
+      } while (op != NULL);
     }
   }
 
   // Delete any pending operations.
-  while (!m_operation_queue.empty())
+  if (m_operation_queue_mutex.lock())
   {
-    delete m_operation_queue.front();
-    m_operation_queue.pop_front();
+    while (!m_operation_queue.empty())
+    {
+      delete m_operation_queue.front();
+      m_operation_queue.pop_front();
+    }
+    m_operation_queue_mutex.unlock();
   }
 
   onThreadStop();
@@ -80,10 +93,22 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  bool queued = false;
+  if (m_operation_queue_mutex.lock())
   {
-    m_operation_queue.push_back(active_operation);
+    // Once the thread was told to stop it deletes the pending
+    // operations (while it holds the mutex), so this has to be checked
+    // with the mutex locked.
+    if (execute())
+    {
+      m_operation_queue.push_back(active_operation);
+      queued = true;
+    }
     m_operation_queue_mutex.unlock();
+  }
+
+  if (queued)
+  {
     m_sem.post();
   }
   else
-- 
2.43.0


From 67bf518f0ffcc87d77756d162c9ace08361ef358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 07/35] fix: an active object stops its thread before its queue
 is destroyed

Only the base class destructor stopped the thread, after the queue and
the semaphore were gone and without waking the thread up, so that it
waited forever for a destroyed semaphore.
---
 src/icl_core/src/icl_core_thread/ActiveObject.cpp | 7 +++++++
 src/icl_core/src/icl_core_thread/ActiveObject.h   | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 9385ba1..444c2f9 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -31,6 +31,13 @@ ActiveObject::ActiveObject(const icl_core::String& description, icl_core::Thread
 {
 }
 
+ActiveObject::~ActiveObject()
+{
+  // The thread uses the queue and the semaphore until it has finished.
+  stop();
+  join();
+}
+
 void ActiveObject::run()
 {
   onThreadStart();
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index cbd5326..b579372 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -49,6 +49,10 @@ public:
   ActiveObject(const icl_core::String& description,
                icl_core::ThreadPriority priority = 0);
 
+  /*! Stops the active object thread if it is still running.
+   */
+  virtual ~ActiveObject();
+
   /*! Processes the operation queue.  This function should not be
    *  overridden by subclasses.
    */
-- 
2.43.0


From 4924e739fe242d2179c3d056d45ac4e7ac71bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 08/35] fix: operations can be added to a running dispatch
 thread

addOperation() modified the list while the thread was iterating over it.
---
 .../src/icl_core_dispatch/PeriodicDispatchThread.cpp | 12 +++++++++++-
 .../src/icl_core_dispatch/PeriodicDispatchThread.h   |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
index 1986b4a..39322f4 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
@@ -24,6 +24,8 @@
 
 #include "icl_core_dispatch/Operation.h"
 
+#include <icl_core_thread/ScopedMutexLock.h>
+
 #include <boost/foreach.hpp>
 
 namespace icl_core {
@@ -44,6 +46,7 @@ PeriodicDispatchThread::~PeriodicDispatchThread()
 
 void PeriodicDispatchThread::addOperation(Operation *op)
 {
+  icl_core::thread::ScopedMutexLock lock(m_dispatch_queue_mutex);
   m_dispatch_queue.push_back(op);
 }
 
@@ -51,7 +54,14 @@ void PeriodicDispatchThread::run()
 {
   while (execute())
   {
-    BOOST_FOREACH (Operation *op, m_dispatch_queue)
+    // Operations can be added while the thread is running.
+    icl_core::List<Operation*> operations;
+    {
+      icl_core::thread::ScopedMutexLock lock(m_dispatch_queue_mutex);
+      operations = m_dispatch_queue;
+    }
+
+    BOOST_FOREACH (Operation *op, operations)
     {
       op->execute();
     }
diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
index 61e2f7e..c520993 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
@@ -25,6 +25,7 @@
 
 #include "icl_core/List.h"
 #include "icl_core_dispatch/ImportExport.h"
+#include "icl_core_thread/Mutex.h"
 #include "icl_core_thread/PeriodicThread.h"
 
 namespace icl_core {
@@ -56,6 +57,7 @@ private:
   virtual void run();
 
   icl_core::List<Operation*> m_dispatch_queue;
+  icl_core::thread::Mutex m_dispatch_queue_mutex;
 };
 
 }
-- 
2.43.0


From db1bec1413208e854da453bedadd96194f8aa748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 09/35] fix: every public header can be included on its own

---
 src/icl_core/src/icl_core/SetHelper.h                 | 2 ++
 src/icl_core/src/icl_core/ZBuffer.h                   | 3 ++-
 src/icl_core/src/icl_core/os_posix_string.h           | 3 +++
 src/icl_core/src/icl_core_config/ConfigValueIface.h   | 1 +
 src/icl_core/src/icl_core_config/MemberEnum.h         | 1 +
 src/icl_core/src/icl_core_logging/Constants.h         | 2 ++
 src/icl_core/src/icl_core_plugin/tPluginManagerBase.h | 2 +-
 src/icl_core/src/icl_core_thread/ScopedSpinLock.h     | 1 +
 8 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/SetHelper.h b/src/icl_core/src/icl_core/SetHelper.h
index b33e407..0e0b513 100644
--- a/src/icl_core/src/icl_core/SetHelper.h
+++ b/src/icl_core/src/icl_core/SetHelper.h
@@ -27,6 +27,8 @@
 
 #include <set>
 
+#include "icl_core/Deprecate.h"
+
 namespace icl_core {
 
 //! Helper enum to describe relations between sets.
diff --git a/src/icl_core/src/icl_core/ZBuffer.h b/src/icl_core/src/icl_core/ZBuffer.h
index 19cb5d0..5ddc59f 100644
--- a/src/icl_core/src/icl_core/ZBuffer.h
+++ b/src/icl_core/src/icl_core/ZBuffer.h
@@ -25,6 +25,7 @@
 
 #include <vector>
 #include <cassert>
+#include <functional>
 #include <boost/optional.hpp>
 
 namespace icl_core {
@@ -77,7 +78,7 @@ public:
   }
 
   //! Empties the Z buffer.
-  void reset() { m_buffer.assign(size); }
+  void reset() { m_buffer.assign(m_buffer.size(), boost::optional<T>()); }
   //! Returns the buffer size.
   const size_type size() const { return m_buffer.size(); }
   //! Read-only access to the buffer.
diff --git a/src/icl_core/src/icl_core/os_posix_string.h b/src/icl_core/src/icl_core/os_posix_string.h
index eb9355b..6b14652 100644
--- a/src/icl_core/src/icl_core/os_posix_string.h
+++ b/src/icl_core/src/icl_core/os_posix_string.h
@@ -25,6 +25,9 @@
 #ifndef ICL_CORE_OS_POSIX_STRING_H_INCLUDED
 #define ICL_CORE_OS_POSIX_STRING_H_INCLUDED
 
+#include <stdarg.h>
+#include <stddef.h>
+
 #include "icl_core/ImportExport.h"
 
 namespace icl_core {
diff --git a/src/icl_core/src/icl_core_config/ConfigValueIface.h b/src/icl_core/src/icl_core_config/ConfigValueIface.h
index 1c57191..92f58c6 100644
--- a/src/icl_core/src/icl_core_config/ConfigValueIface.h
+++ b/src/icl_core/src/icl_core_config/ConfigValueIface.h
@@ -24,6 +24,7 @@
 #define ICL_CORE_CONFIG_CONFIG_VALUE_IFACE_H_INCLUDED
 
 #include <icl_core/BaseTypes.h>
+#include <icl_core_logging/Logging.h>
 
 namespace icl_core {
 namespace config {
diff --git a/src/icl_core/src/icl_core_config/MemberEnum.h b/src/icl_core/src/icl_core_config/MemberEnum.h
index d84efaa..8c30a82 100644
--- a/src/icl_core/src/icl_core_config/MemberEnum.h
+++ b/src/icl_core/src/icl_core_config/MemberEnum.h
@@ -23,6 +23,7 @@
 #ifndef ICL_CORE_CONFIG_MEMBER_ENUM_H_INCLUDED
 #define ICL_CORE_CONFIG_MEMBER_ENUM_H_INCLUDED
 
+#include "icl_core/EnumHelper.h"
 #include "icl_core/RemoveMemberPointer.h"
 #include "icl_core/TemplateHelper.h"
 #include "icl_core_config/ConfigHelper.h"
diff --git a/src/icl_core/src/icl_core_logging/Constants.h b/src/icl_core/src/icl_core_logging/Constants.h
index 0813181..795f6a7 100644
--- a/src/icl_core/src/icl_core_logging/Constants.h
+++ b/src/icl_core/src/icl_core_logging/Constants.h
@@ -25,6 +25,8 @@
 #ifndef ICL_CORE_LOGGING_CONSTANTS_H_INCLUDED
 #define ICL_CORE_LOGGING_CONSTANTS_H_INCLUDED
 
+#include <cstddef>
+
 namespace icl_core {
 namespace logging {
 
diff --git a/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h b/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h
index 3df7b88..e39eb3f 100644
--- a/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h
+++ b/src/icl_core/src/icl_core_plugin/tPluginManagerBase.h
@@ -25,7 +25,7 @@
 #define ICL_CORE_PLUGIN_T_PLUGIN_MANAGER_BASE_H_INCLUDED
 
 #include "icl_core/Deprecate.h"
-#include "icl_core/PluginManagerBase.h"
+#include "icl_core_plugin/PluginManagerBase.h"
 
 namespace icl_core {
 namespace plugin {
diff --git a/src/icl_core/src/icl_core_thread/ScopedSpinLock.h b/src/icl_core/src/icl_core_thread/ScopedSpinLock.h
index 4867172..85e7456 100644
--- a/src/icl_core/src/icl_core_thread/ScopedSpinLock.h
+++ b/src/icl_core/src/icl_core_thread/ScopedSpinLock.h
@@ -23,6 +23,7 @@
 #ifndef ICL_CORE_THREAD_SCOPED_SPIN_LOCK_H_INCLUDED
 #define ICL_CORE_THREAD_SCOPED_SPIN_LOCK_H_INCLUDED
 
+#include <icl_core/Noncopyable.h>
 #include <icl_core_thread/SpinLock.h>
 
 namespace icl_core {
-- 
2.43.0


From 39a466fe9338e4ab7b56b88a915ea3a11df526b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 10/35] fix: initialise every member in the constructors

DataHeader::dsin, the function objects of the scheme parser, the type of a
Scheme, the argument vector of Getopt and the log levels of the logging
configuration had indeterminate values after construction.
---
 src/icl_core/src/icl_core/DataHeader.h             |  6 ++++--
 src/icl_core/src/icl_core/SchemeParser.h           | 12 ++++++++++++
 src/icl_core/src/icl_core_config/GetoptParser.cpp  |  4 +++-
 src/icl_core/src/icl_core_logging/LoggingManager.h |  8 ++++++++
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/DataHeader.h b/src/icl_core/src/icl_core/DataHeader.h
index 9d71082..735009d 100644
--- a/src/icl_core/src/icl_core/DataHeader.h
+++ b/src/icl_core/src/icl_core/DataHeader.h
@@ -66,7 +66,8 @@ struct DataHeader
   DataHeader()
     : coordinate_system(),
       timestamp(),
-      sequence_number(0)
+      sequence_number(0),
+      dsin(0)
   { }
 
   //! Constructor.
@@ -75,7 +76,8 @@ struct DataHeader
              uint32_t sequence_number = 0)
     : coordinate_system(coordinate_system),
       timestamp(timestamp),
-      sequence_number(sequence_number)
+      sequence_number(sequence_number),
+      dsin(0)
   { }
 
   //! Destructor.
diff --git a/src/icl_core/src/icl_core/SchemeParser.h b/src/icl_core/src/icl_core/SchemeParser.h
index 0633da7..5a0285c 100644
--- a/src/icl_core/src/icl_core/SchemeParser.h
+++ b/src/icl_core/src/icl_core/SchemeParser.h
@@ -71,6 +71,8 @@ enum SchemeType
 
 struct Scheme
 {
+    Scheme() : scheme_type(OtherScheme)
+    { }
     SchemeType scheme_type;
     String scheme_name;
     String specifier;
@@ -96,6 +98,8 @@ public:
 class SchemeFunction : public AbstractFunctionObject
 {
 public:
+    SchemeFunction() : m_scheme_handler(0)
+    { }
     virtual ~SchemeFunction()
     { }
     virtual void operator () (char const* str, char const* end) const;
@@ -105,6 +109,8 @@ public:
 class SpecifierFunction : public AbstractFunctionObject
 {
 public:
+    SpecifierFunction() : m_scheme_handler(0)
+    { }
     virtual ~SpecifierFunction()
     { }
     virtual void operator () (char const* str, char const* end) const;
@@ -114,6 +120,8 @@ public:
 class AnchorFunction : public AbstractFunctionObject
 {
 public:
+    AnchorFunction() : m_scheme_handler(0)
+    { }
     virtual ~AnchorFunction()
     { }
     virtual void operator () (char const* str, char const* end) const;
@@ -123,6 +131,8 @@ public:
 class QueryKeyFunction : public AbstractFunctionObject
 {
 public:
+    QueryKeyFunction() : m_queries(0)
+    { }
     virtual ~QueryKeyFunction()
     { }
     virtual void operator () (char const* str, char const* end) const;
@@ -132,6 +142,8 @@ public:
 class QueryValueFunction : public AbstractFunctionObject
 {
 public:
+    QueryValueFunction() : m_queries(0)
+    { }
     virtual ~QueryValueFunction()
     { }
     virtual void operator () (char const* str, char const* end) const;
diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..cd30851 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -703,7 +703,9 @@ void Getopt::PrintHelp() const
 
 Getopt::Getopt()
   : m_extra_cmd_param_activated(false),
-    m_initialized(false)
+    m_initialized(false),
+    m_argc(0),
+    m_argv(NULL)
 {
   addParameter(GetoptParameter("help", "h", "Print commandline help."));
 }
diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.h b/src/icl_core/src/icl_core_logging/LoggingManager.h
index bc53841..120a731 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.h
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.h
@@ -227,6 +227,10 @@ private:
   //! Configuration of a LogOutputStream.
   struct LogOutputStreamConfig
   {
+    LogOutputStreamConfig()
+      : log_level(cDEFAULT_LOG_LEVEL)
+    { }
+
     /*! The name of the output stream class as registered by the
      *  implementation.
      */
@@ -243,6 +247,10 @@ private:
   //! Configuration of a LogStream.
   struct LogStreamConfig
   {
+    LogStreamConfig()
+      : log_level(cDEFAULT_LOG_LEVEL)
+    { }
+
     //! Name of the log stream.
     icl_core::String name;
     //! Log level of the log stream.
-- 
2.43.0


From 5cb8353684440fd11696a013f9df91b193c2fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 11/35] fix: a thread stream is reset before it is released

flush() reset the write index after the stream was put back into the pool and
the mutex was released.  A thread which had taken the stream in between lost
what it had written so far.
---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..396e65f 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -135,6 +135,8 @@ void ThreadStream::flush()
                     m_classname, m_objectname, m_function, m_data);
     }
 
+    // Another thread may use this stream as soon as it is released.
+    m_write_index = 0;
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -142,8 +144,8 @@ void ThreadStream::flush()
   else
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
+    m_write_index = 0;
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From f9ca14c7348fdbd406997778cd2cfb6d265fab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 12/35] fix: the lists of the logging streams are accessed with
 their lock held

The worker thread looked at its message queue before it took the lock,
printConfiguration() iterated over the output streams without the lock and
changeLogFormat() modified the new format entries without the lock.
---
 .../src/icl_core_logging/LogOutputStream.cpp  | 50 ++++++++-----------
 .../src/icl_core_logging/LogStream.cpp        | 10 ++--
 src/icl_core/src/icl_core_logging/LogStream.h |  2 +-
 3 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..5c48502 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -127,10 +127,11 @@ void LogOutputStream::changeLogFormat(const char *format)
   // Stop processing at the end of the format string.
   if (format[0] != 0)
   {
-    parseLogFormat(format);
-
     if (m_format_mutex.wait())
     {
+      m_new_log_format.clear();
+      parseLogFormat(format);
+
       m_log_format.clear();
       m_log_format = m_new_log_format;
       m_new_log_format.clear();
@@ -568,38 +569,31 @@ void LogOutputStream::WorkerThread::run()
   {
     if (m_fill_count->wait())
     {
-#ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-      if (!isMessageQueueEmpty())
-#else
-      if (!m_message_queue.empty())
-#endif
+      if (m_mutex->wait())
       {
-        if (m_mutex->wait())
-        {
-          LogMessage log_message;
-          bool push = false;
+        LogMessage log_message;
+        bool push = false;
 #ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-          if (!isMessageQueueEmpty())
-          {
-            log_message = m_message_queue[m_message_queue_read_index];
-            incrementIndex(m_message_queue_read_index);
-            push = true;
-          }
+        if (!isMessageQueueEmpty())
+        {
+          log_message = m_message_queue[m_message_queue_read_index];
+          incrementIndex(m_message_queue_read_index);
+          push = true;
+        }
 #else
-          if (!m_message_queue.empty())
-          {
-            log_message = m_message_queue.front();
-            m_message_queue.pop();
-            push = true;
-          }
+        if (!m_message_queue.empty())
+        {
+          log_message = m_message_queue.front();
+          m_message_queue.pop();
+          push = true;
+        }
 #endif
 
-          m_mutex->post();
+        m_mutex->post();
 
-          if (push)
-          {
-            m_output_stream->pushImpl(log_message);
-          }
+        if (push)
+        {
+          m_output_stream->pushImpl(log_message);
         }
       }
     }
diff --git a/src/icl_core/src/icl_core_logging/LogStream.cpp b/src/icl_core/src/icl_core_logging/LogStream.cpp
index f177b58..433cb52 100644
--- a/src/icl_core/src/icl_core_logging/LogStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogStream.cpp
@@ -155,10 +155,14 @@ icl_core::logging::ThreadStream& LogStream::threadStream(icl_core::logging::LogL
 
 void LogStream::printConfiguration() const
 {
-  for (std::set<LogOutputStream*>::const_iterator it = m_output_stream_list.begin();
-       it != m_output_stream_list.end(); ++it)
+  if (m_mutex.wait())
   {
-    std::cerr << (*it)->name() << " ";
+    for (std::set<LogOutputStream*>::const_iterator it = m_output_stream_list.begin();
+         it != m_output_stream_list.end(); ++it)
+    {
+      std::cerr << (*it)->name() << " ";
+    }
+    m_mutex.post();
   }
 }
 
diff --git a/src/icl_core/src/icl_core_logging/LogStream.h b/src/icl_core/src/icl_core_logging/LogStream.h
index 9b24841..8332ed3 100644
--- a/src/icl_core/src/icl_core_logging/LogStream.h
+++ b/src/icl_core/src/icl_core_logging/LogStream.h
@@ -184,7 +184,7 @@ private:
   std::set<LogOutputStream*> m_output_stream_list;
 
   // Safe access to the output stream list.
-  Semaphore m_mutex;
+  mutable Semaphore m_mutex;
 
   static ThreadId m_empty_thread_id;
 };
-- 
2.43.0


From a283ac592b1ffaa2fcd309e88bd72f34045a9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 13/35] fix: scaling a time span keeps the fraction of its
 seconds, microseconds are printed as such

---
 src/icl_core/src/icl_core/TimeSpan.cpp        |  2 +-
 src/icl_core/src/icl_core/TimeSpan.h          | 14 ++++++++++----
 src/icl_core/src/icl_core_logging/Logging.cpp |  2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..28f8305 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -256,7 +256,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
diff --git a/src/icl_core/src/icl_core/TimeSpan.h b/src/icl_core/src/icl_core/TimeSpan.h
index f67f2e0..c0300ff 100644
--- a/src/icl_core/src/icl_core/TimeSpan.h
+++ b/src/icl_core/src/icl_core/TimeSpan.h
@@ -209,14 +209,20 @@ inline TimeSpan operator - (const TimeSpan& left, const TimeSpan& right)
 
 inline TimeSpan operator / (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() / divisor), int32_t(span.tsNSec() / divisor));
-  return a;
+  // The fraction of the seconds goes to the nanoseconds, the seconds of the nanoseconds to the seconds.
+  double secs = span.tsSec() / divisor;
+  double nsecs = (secs - int64_t(secs)) * 1E9 + span.tsNSec() / divisor;
+  int64_t carry = int64_t(nsecs / 1E9);
+  return TimeSpan(int64_t(secs) + carry, int32_t(nsecs - carry * 1E9));
 }
 
 inline TimeSpan operator * (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() * divisor), int32_t(span.tsNSec() * divisor));
-  return a;
+  // The fraction of the seconds goes to the nanoseconds, the seconds of the nanoseconds to the seconds.
+  double secs = span.tsSec() * divisor;
+  double nsecs = (secs - int64_t(secs)) * 1E9 + span.tsNSec() * divisor;
+  int64_t carry = int64_t(nsecs / 1E9);
+  return TimeSpan(int64_t(secs) + carry, int32_t(nsecs - carry * 1E9));
 }
 
 inline TimeSpan abs(const TimeSpan& span)
diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 35ccdd7..240d302 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -83,7 +83,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From 3e114dba6c3b58bf93c47a962c4bcdccb3b090e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 14/35] fix: formatting a time stamp always leaves a terminated
 string, without shared buffers

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..78c46ca 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -181,7 +181,7 @@ TimeStamp TimeStamp::fromIso8601BasicUTC(const String& str)
   {
     days_per_month[1] = 29;
   }
-  for (int32_t m = 1; m < tm_mon; ++m)
+  for (int32_t m = 1; m < tm_mon && m <= 12; ++m)
   {
     days_since_epoch += days_per_month[m-1];
   }
@@ -203,18 +203,31 @@ TimeStamp& TimeStamp::fromNow()
 void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
-  struct tm *newtime;
-  newtime = gmtime(&time);
-  strftime(dest, max_len, format, newtime);
+#if defined _SYSTEM_POSIX_
+  struct tm buffer;
+  struct tm *newtime = gmtime_r(&time, &buffer);
+#else
+  struct tm *newtime = gmtime(&time);
+#endif
+  // If there is no such date or it does not fit then the result is empty.
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
+  {
+    dest[0] = '\0';
+  }
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
+#if defined _SYSTEM_POSIX_
+  struct tm buffer;
+  struct tm *newtime = localtime_r(&time, &buffer);
+#else
   struct tm *newtime = localtime(&time);
-  if (newtime)
+#endif
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
-    strftime(dest, max_len, format, newtime);
+    dest[0] = '\0';
   }
 }
 
-- 
2.43.0


From c532162c6664e4592793686e5c807e40ba0b0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 15/35] fix: texts of log messages and log formats are bounded
 and terminated

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 46 +++++++++++++------
 .../src/icl_core_logging/ThreadStream.cpp     |  7 +++
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 5c48502..6e5d141 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -408,13 +408,17 @@ void LogOutputStream::parseLogFormat(const char *format)
     }
 
     // Read optional prefix text.
-    char *prefix_ptr = new_entry.text;
+    size_t prefix_length = 0;
     while (format[0] != 0 && format[0] != 'C' && format[0] != 'O' && format[0] != 'D'
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      // The text is truncated if it does not fit.
+      if (prefix_length < sizeof(new_entry.text) - 1)
+      {
+        new_entry.text[prefix_length] = format[0];
+        ++prefix_length;
+      }
       ++format;
     }
 
@@ -475,17 +479,20 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
-    char *text_ptr = new_entry.text;
+    size_t text_length = 0;
     while (format[0] != '~' && format[0] != 0)
     {
-      *text_ptr = format[0];
-      ++text_ptr;
+      // The text is truncated if it does not fit.
+      if (text_length < sizeof(new_entry.text) - 1)
+      {
+        new_entry.text[text_length] = format[0];
+        ++text_length;
+      }
       ++format;
     }
 
@@ -653,6 +660,17 @@ bool LogOutputStream::WorkerThread::isMessageQueueFull()
 }
 #endif
 
+namespace {
+
+//! Copies at most \a max_length characters, the result is always terminated.
+void copyText(char *destination, const char *source, size_t max_length)
+{
+  std::strncpy(destination, source, max_length);
+  destination[max_length] = '\0';
+}
+
+}
+
 LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
                                         icl_core::logging::LogLevel log_level,
                                         const char *log_stream, const char *filename,
@@ -663,12 +681,12 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
     log_level(log_level),
     line(line)
 {
-  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+  copyText(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH);
+  copyText(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH);
+  copyText(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH);
+  copyText(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH);
+  copyText(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH);
+  copyText(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE);
 }
 
 }
diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 396e65f..d13aadb 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -155,7 +155,9 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_line(0),
     m_write_index(0)
 {
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
@@ -271,6 +273,11 @@ ThreadStream& operator << (ThreadStream& stream, double value)
 {
   char local_buffer[100];
   size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // Large numbers have up to 317 characters.
+  if (length > sizeof(local_buffer) - 1)
+  {
+    length = sizeof(local_buffer) - 1;
+  }
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From 34237bac109ebc37aac3827fc51040623562e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 16/35] fix: local logging macros with format strings and
 object names compile and format their message

---
 .../icl_core_logging/LoggingMacros_LLOGGING.h | 10 +++----
 .../LoggingMacros_LLOGGING_FMT.h              | 30 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
index cce1304..f0c940b 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
@@ -91,12 +91,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, arg)
-# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, arg)
-# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, arg)
+# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, arg)
+# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, arg)
+# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, arg)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, arg)
-#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, arg)
+#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, arg)
+#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, arg)
 # else
 #  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) (void)0
 #  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) (void)0
diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
index 51daec0..6ca5707 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
@@ -27,12 +27,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
-# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
+# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG(streamname, ...) (void)0
 #  define LLOGGING_FMT_TRACE(streamname, ...) (void)0
@@ -47,12 +47,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) (void)0
@@ -67,12 +67,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) (void)0
-- 
2.43.0


From b9f93e7e769fd3d98664d9f50c5b8130b073daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 17/35] fix: a destroyed log stream is no longer returned by
 instance() and is destroyed through a virtual destructor

---
 src/icl_core/src/icl_core_logging/LogStream.h | 2 +-
 src/icl_core/src/icl_core_logging/Logging.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogStream.h b/src/icl_core/src/icl_core_logging/LogStream.h
index 8332ed3..6457f7d 100644
--- a/src/icl_core/src/icl_core_logging/LogStream.h
+++ b/src/icl_core/src/icl_core_logging/LogStream.h
@@ -62,7 +62,7 @@ public:
    */
   LogStream(const icl_core::String& name, icl_core::logging::LogLevel initial_level = cDEFAULT_LOG_LEVEL);
 
-  ~LogStream();
+  virtual ~LogStream();
 
   //! Return the name of the log stream.
   icl_core::String name() const { return m_name; }
diff --git a/src/icl_core/src/icl_core_logging/Logging.h b/src/icl_core/src/icl_core_logging/Logging.h
index db74997..7af3bb6 100644
--- a/src/icl_core/src/icl_core_logging/Logging.h
+++ b/src/icl_core/src/icl_core_logging/Logging.h
@@ -68,7 +68,7 @@
     name()                                                         \
       : LogStream(#name)                                           \
     { }                                                            \
-    ~name() { }                                                    \
+    ~name() { m_instance = NULL; }                                 \
     static name *m_instance;                                       \
     friend class ::icl_core::logging::LoggingManager;              \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;  \
@@ -87,7 +87,7 @@
     name()                                                              \
       : LogStream(#name)                                                \
     { }                                                                 \
-    ~name() { }                                                         \
+    ~name() { m_instance = NULL; }                                      \
     static name *m_instance;                                            \
     friend class ::icl_core::logging::LoggingManager;                   \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;       \
-- 
2.43.0


From b889337ea9bf13198dab96575867294e781dc199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 18/35] fix: configuration values which can not be converted
 are not accepted, strings are read as a whole

---
 src/icl_core/src/icl_core_config/Util.h | 58 +++++++++++++++++++------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index fac3669..31681bb 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,20 +36,6 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
-/*! Lexical cast which handles hexadecimal and octal numbers
- *  correctly.
- */
-template <typename T, typename U>
-T hexical_cast(U input)
-{
-  std::stringstream interpreter;
-  interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
-  interpreter << input;
-  T result;
-  interpreter >> result;
-  return result;
-}
-
 /*! Lexical cast to bool.  Handles hexadecimal and octal numbers
  *  correctly like other integer values.
  *  \li The values 1, "yes" and "true" (in any capitalization) are
@@ -106,6 +92,50 @@ bool strict_bool_cast(U input)
   }
 }
 
+/*! Read a value from its textual representation.
+ *  \throws std::invalid_argument if the text can not be converted.
+ */
+template <typename T>
+void extractValue(std::stringstream& interpreter, T& value)
+{
+  interpreter >> value;
+  if (interpreter.fail())
+  {
+    throw std::invalid_argument("The text can not be converted to the requested type.");
+  }
+}
+
+/*! A string is the text itself, it may be empty or contain spaces.
+ */
+inline
+void extractValue(std::stringstream& interpreter, std::string& value)
+{
+  value = interpreter.str();
+}
+
+/*! Boolean values are also accepted as "yes", "true", "no" and "false".
+ */
+inline
+void extractValue(std::stringstream& interpreter, bool& value)
+{
+  value = strict_bool_cast(interpreter.str());
+}
+
+/*! Lexical cast which handles hexadecimal and octal numbers
+ *  correctly.
+ *  \throws std::invalid_argument if \a input can not be converted.
+ */
+template <typename T, typename U>
+T hexical_cast(U input)
+{
+  std::stringstream interpreter;
+  interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
+  interpreter << input;
+  T result;
+  extractValue(interpreter, result);
+  return result;
+}
+
 }
 }
 }
-- 
2.43.0


From 7d53d7a7c221492b8ba78b4192bb27f638fc5ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 19/35] fix: batch access objects keep a copy of their default
 value

---
 src/icl_core/src/icl_core_config/ConfigEnumDefault.h  | 3 ++-
 src/icl_core/src/icl_core_config/ConfigValueDefault.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
index 5b38c95..782395b 100644
--- a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
@@ -72,7 +72,8 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  // Store a copy, the default value is usually a temporary object.
+  T m_default_value;
 };
 
 }}
diff --git a/src/icl_core/src/icl_core_config/ConfigValueDefault.h b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
index fab3eab..ec3ad00 100644
--- a/src/icl_core/src/icl_core_config/ConfigValueDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
@@ -70,7 +70,8 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  // Store a copy, the default value is usually a temporary object.
+  T m_default_value;
 };
 
 }}
-- 
2.43.0


From 97d50fc0fb713b6b81684b08a76dfdb0b14df885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 20/35] fix: observers of keys with special characters are told
 the present value

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..e680023 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -309,7 +309,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From c5c9b314ba274b10e753965e0bc3ca59152e011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 21/35] fix: an option whose value is missing is refused

A match always has all groups, whether they took part or not.
---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index cd30851..ad1e4d9 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -150,8 +150,8 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         if (find_it->second.hasValue())
         {
           // According to the regular expression the value has to be
-          // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          // the 3rd (and last) match result, if there is a "=" at all.
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -182,7 +182,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From 79a503eb45f2c06d9a1cfdd96d0438c981b49e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:17 +0000
Subject: [PATCH 22/35] fix: Getopt knows that it has been initialised

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index ad1e4d9..f5e2e91 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -369,6 +369,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     }
   }
 
+  m_initialized = true;
   return true;
 }
 
-- 
2.43.0


From 41748c1d1c181039fc037d475cadc0e629809489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 23/35] fix: release the expanded words of a log file name

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..9b1cdf9 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -312,8 +312,8 @@ void FileLogOutput::expandFilename()
     {
       m_filename = p.we_wordv[0];
     }
+    wordfree(&p);
   }
-  //wordfree(&p);
 #elif defined(_SYSTEM_WIN32_)
   // TODO: Implement this with ExpandEnvironmenStrings()
 #endif
-- 
2.43.0


From 898e9c62296abc8e225fc6575d1527c129edf4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 24/35] fix: release the error messages of the SQLite pragmas

---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index 6ba99b6..f20f3da 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -109,6 +109,7 @@ void SQLiteLogDb::openDatabase()
     if (res != SQLITE_OK)
     {
       std::cerr << "SQLite log output: Could not set PRAGMA synchronous=OFF: " << error << std::endl;
+      sqlite3_free(error);
     }
 
     error = NULL;
@@ -116,6 +117,7 @@ void SQLiteLogDb::openDatabase()
     if (res != SQLITE_OK)
     {
       std::cerr << "SQLite log output: Could not set PRAGMA temp_store=MEMORY: " << error << std::endl;
+      sqlite3_free(error);
     }
   }
 
-- 
2.43.0


From f05e85cfedd71cd6bfc1e0cf4daf37e11d24ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 25/35] fix: opening an open SQLite log database again lost its
 handle

---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index f20f3da..e3b3c79 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -55,6 +55,9 @@ void SQLiteLogDb::openDatabase()
 {
   char *error = NULL;
 
+  // Release a database which is already open.
+  closeDatabase();
+
   if (m_db_filename != "")
   {
     int res = SQLITE_OK;
-- 
2.43.0


From 95bdaa1745ea17509e7e380a22473186a80cdd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:17 +0000
Subject: [PATCH 26/35] fix: a zipped log file could not be opened (zlib has no
 read/write mode)

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 9b1cdf9..e779020 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,7 +208,7 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
+    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
       std::cerr << "Could not open log file " << m_filename << std::endl;
-- 
2.43.0


From 4b751b860869028be9d5b1aa8bf7c7160401d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:17 +0000
Subject: [PATCH 27/35] fix: a zipped log file which is rotated on startup was
 opened twice

---
 .../src/icl_core_logging/FileLogOutput.cpp      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index e779020..975aa00 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,15 +208,18 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
-      std::cerr << "Could not open log file " << m_filename << std::endl;
-    }
-    else
-    {
-      const char *buffer = "\n\n-------------FILE (RE-)OPENED------------------\n";
-      gzwrite(m_zipped_log_file, buffer, static_cast<unsigned int>(strlen(buffer)));
+      m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
+      if (m_zipped_log_file == NULL)
+      {
+        std::cerr << "Could not open log file " << m_filename << std::endl;
+      }
+      else
+      {
+        const char *buffer = "\n\n-------------FILE (RE-)OPENED------------------\n";
+        gzwrite(m_zipped_log_file, buffer, static_cast<unsigned int>(strlen(buffer)));
+      }
     }
   }
   else
-- 
2.43.0


From 25c03e60e477b0849234489cb2f88bc7b5a564a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 28/35] fix: zipFile() reported success although the file was
 not zipped

---
 src/icl_core/src/icl_core/os_fs.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..a69fe60 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -38,7 +38,7 @@ namespace os {
 #ifdef _IC_BUILDER_ZLIB_
 bool zipFile(const char *filename, const char *additional_extension)
 {
-  bool ret = true;
+  bool ret = false;
   icl_core::String gzip_file_name = icl_core::String(filename) + additional_extension + ".gz";
   char big_buffer[0x1000];
   int bytes_read = 0;
@@ -47,6 +47,7 @@ bool zipFile(const char *filename, const char *additional_extension)
 
   if (unzipped_file != NULL && zipped_file != NULL)
   {
+    ret = true;
     bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     while (bytes_read > 0)
     {
@@ -59,6 +60,12 @@ bool zipFile(const char *filename, const char *additional_extension)
 
       bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     }
+
+    if (bytes_read < 0)
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
+      ret = false;
+    }
   }
 
   if (unzipped_file != NULL)
@@ -67,7 +74,11 @@ bool zipFile(const char *filename, const char *additional_extension)
   }
   if (zipped_file != NULL)
   {
-    gzclose(zipped_file);
+    // The remaining data is written when the file is closed.
+    if (gzclose(zipped_file) != Z_OK)
+    {
+      ret = false;
+    }
   }
 
   return ret;
-- 
2.43.0


From 101d47bcd7e8bf1d24a0fc64ebd80d2073af12de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 29/35] fix: the rotated log file was removed although it could
 not be zipped

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 975aa00..4d2a361 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -255,8 +255,11 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        // If the file could not be zipped then keep it. Otherwise its content would be lost.
+        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
       }
       else
 #endif
-- 
2.43.0


From 5db29da027699c6718f549d60e2d360d7820df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:15 +0000
Subject: [PATCH 30/35] fix: quotation marks in UDP log messages were not
 escaped

---
 .../src/icl_core_logging/UdpLogOutput.cpp       | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..8b8cb1a 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -102,14 +102,14 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
   if (m_socket >= 0)
   {
     std::stringstream ss;
-    ss << "'" << m_system_name << "',"
+    ss << "'" << escape(m_system_name) << "',"
        << "'" << log_message.timestamp.formatIso8601() << "'," << log_message.timestamp.tsNSec() << ","
        << "'" << logLevelDescription(log_message.log_level) << "',"
-       << "'" << log_message.log_stream << "',"
-       << "'" << log_message.filename << "'," << log_message.line << ","
-       << "'" << log_message.class_name << "',"
+       << "'" << escape(log_message.log_stream) << "',"
+       << "'" << escape(log_message.filename) << "'," << log_message.line << ","
+       << "'" << escape(log_message.class_name) << "',"
        << "'" << escape(log_message.object_name) << "',"
-       << "'" << log_message.function_name << "',"
+       << "'" << escape(log_message.function_name) << "',"
        << "'" << escape(log_message.message_text) << "'";
     std::string str = ss.str();
     int res = write(m_socket, str.c_str(), str.length());
@@ -122,10 +122,9 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
 
 icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
-  // TODO: Which characters have to be escaped to ensure that a
-  // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
-  //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
+  // In an SQL string literal only the quotation mark has to be
+  // escaped, which is done by doubling it.
+  str = boost::regex_replace(str, boost::regex("'"), "''");
   return str;
 }
 
-- 
2.43.0


From 787dce7396073b3f1d4180c03283a8862e3a8154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:54 +0000
Subject: [PATCH 31/35] fix: the plugin manager lists no plugins which do not
 exist

Asking for an unknown identifier added a NULL entry, which plugins() and
availablePlugins() returned, and a failed instance was kept as NULL.
---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1e4c368..210586e 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -206,7 +206,8 @@ public:
       return m_static_plugins[identifier];
     }
 
-    return m_loaded_plugins[identifier];
+    typename std::map<std::string, T*>::const_iterator iter = m_loaded_plugins.find(identifier);
+    return iter != m_loaded_plugins.end() ? iter->second : NULL;
   }
 
   /*! Create a new plugin instance.
@@ -224,8 +225,8 @@ public:
       loadPlugins();
     }
 
-    PluginHandle plugin_handle = m_plugin_handles[identifier];
-    return loadPluginInstance(plugin_handle, identifier);
+    typename std::map<std::string, PluginHandle>::const_iterator iter = m_plugin_handles.find(identifier);
+    return loadPluginInstance(iter != m_plugin_handles.end() ? iter->second : NULL, identifier);
   }
 
   /*! Manually add an already created plugin instance.  Can be useful
@@ -507,7 +508,11 @@ protected:
     {
       if (m_loaded_plugins.find(iter->first) == m_loaded_plugins.end())
       {
-        m_loaded_plugins[iter->first] = createPluginInstance(iter->first);
+        T* plugin_instance = createPluginInstance(iter->first);
+        if (plugin_instance)
+        {
+          m_loaded_plugins[iter->first] = plugin_instance;
+        }
       }
     }
 
-- 
2.43.0


From 555e9a32806ca314e1ffc298bfdbf21e90637a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:54 +0000
Subject: [PATCH 32/35] fix: destroying the plugin manager closes every library
 and ends

Libraries without an instance were never closed, and an entry without a
library kept the loop running forever.
---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 210586e..d2f7024 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -62,9 +62,9 @@ class PluginManager: public PluginManagerBase
 public:
   ~PluginManager()
   {
-    while (!m_plugin_handles.empty() && !m_loaded_plugins.empty())
+    while (!m_plugin_handles.empty())
     {
-      closePluginHandle(m_loaded_plugins.begin()->first);
+      closePluginHandle(m_plugin_handles.begin()->first);
     }
 
     static PluginManager<T, plugin_dir>* m_instance;
-- 
2.43.0


From 25811e51c0f858aa5d1fe36aa3ff2380cdfb68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:54 +0000
Subject: [PATCH 33/35] fix: check dlopen() and close libraries which are not
 registered

After a failed dlopen() the symbols were looked up in the program itself,
and libraries which were not registered or replaced another one of the
same identifier stayed open.
---
 .../src/icl_core_plugin/PluginManager.h       | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index d2f7024..adf52b5 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -435,13 +435,16 @@ protected:
 #endif
 
     PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
+    typename T::identifier* get_identifier = NULL;
+    typename T::basetype* get_basetype = NULL;
+    bool registered = false;
 
-    dlerror(); // Clear any previous errors.
-    typename T::identifier* get_identifier
-      = (typename T::identifier*) dlsym(plugin_handle, "identifier");
-
-    typename T::basetype* get_basetype
-      = (typename T::basetype*) dlsym(plugin_handle, "basetype");
+    if (plugin_handle)
+    {
+      dlerror(); // Clear any previous errors.
+      get_identifier = (typename T::identifier*) dlsym(plugin_handle, "identifier");
+      get_basetype = (typename T::basetype*) dlsym(plugin_handle, "basetype");
+    }
 
     const char* dlsym_error = dlerror();
     if (dlsym_error)
@@ -487,13 +490,24 @@ protected:
         LOGGING_WARNING(Plugin, "Plugin type mismatch: Exptected " << typeid(T).name()
                         << ", got " << get_basetype() << icl_core::logging::endl);
       }
+      else if (m_plugin_handles.find(get_identifier()) != m_plugin_handles.end())
+      {
+        LOGGING_WARNING(Plugin, "Ignoring " << plugin << " because the plugin " << get_identifier()
+                        << " is already registered." << icl_core::logging::endl);
+      }
       else
       {
         m_plugin_handles[get_identifier()] = plugin_handle;
+        registered = true;
         LOGGING_DEBUG(Plugin, "Initialized plugin " << get_identifier() << " of basetype "
                       << get_basetype() << icl_core::logging::endl);
       }
     }
+
+    if (plugin_handle && !registered)
+    {
+      dlclose(plugin_handle);
+    }
   }
 
   /*! Loads an instance for all available plugins.  Manager will take
-- 
2.43.0


From 5f7d311113e50c036a56be4695aa84dbdeef695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:06 +0000
Subject: [PATCH 34/35] fix: a log database cannot be copied

Both copies would have closed the same connection.
---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.h b/src/icl_core/src/icl_core_logging/SQLiteLogDb.h
index 4fb3541..a45b7f0 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.h
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.h
@@ -29,12 +29,13 @@
 
 #include <sqlite3.h>
 
+#include <icl_core/Noncopyable.h>
 #include <icl_core/TimeStamp.h>
 
 namespace icl_core {
 namespace logging {
 
-class SQLiteLogDb
+class SQLiteLogDb : protected virtual icl_core::Noncopyable
 {
 public:
   SQLiteLogDb(const icl_core::String& db_filename, bool rotate);
-- 
2.43.0


From 71ac48331630a0f1c86f2b03a14ff0a797ede329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:06 +0000
Subject: [PATCH 35/35] fix: instance() does not return a destroyed plugin
 manager

The destructor reset another static variable of the same name.
---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index adf52b5..77ee135 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -67,17 +67,15 @@ public:
       closePluginHandle(m_plugin_handles.begin()->first);
     }
 
-    static PluginManager<T, plugin_dir>* m_instance;
-    m_instance = 0;
-    (void) m_instance;
+    if (m_instance == this)
+    {
+      m_instance = 0;
+    }
   }
 
   //! Singleton instance accessor.
   static PluginManager<T, plugin_dir> *instance()
   {
-    //! Singleton instance.
-    static PluginManager<T, plugin_dir> *m_instance = 0;
-
     if (!m_instance)
     {
       m_instance = new PluginManager<T, plugin_dir>();
@@ -684,8 +682,14 @@ protected:
   bool m_initialized;
 
   bool m_lazy_loading;
+
+  //! Singleton instance.
+  static PluginManager<T, plugin_dir> *m_instance;
 };
 
+template <class T, const char* const plugin_dir>
+PluginManager<T, plugin_dir> *PluginManager<T, plugin_dir>::m_instance = 0;
+
 }
 }
 
-- 
2.43.0

