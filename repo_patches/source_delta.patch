From b47dce0d5d8d17542e36dbe19765a88108e3a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 01/62] fix: keep an exhausted key/value query iterator at its
 end

KeyValueDirectoryIterator::next() incremented the end iterator when it was
called again after it had returned false, so the last match was reported
again (or the call never returned).
---
 src/icl_core/src/icl_core/KeyValueDirectory.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/KeyValueDirectory.hpp b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
index d021f6d..7b01b64 100644
--- a/src/icl_core/src/icl_core/KeyValueDirectory.hpp
+++ b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
@@ -105,8 +105,9 @@ bool KeyValueDirectoryIterator<T>::next()
     m_reset = false;
     m_current_entry = m_directory->m_items.begin();
   }
-  // Otherwise move to the next iterator position.
-  else
+  // Otherwise move to the next iterator position, unless the end has
+  // already been reached.
+  else if (m_current_entry != m_directory->m_items.end())
   {
     ++m_current_entry;
   }
-- 
2.43.0


From ff0513fa363a5664493b230a74cf44f088bb376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 02/62] fix: compare sequence numbers by half of their own
 range

SequenceNumber::operator< took half of max_value as the wrap-around window,
also when min_value is not 0, so a number was not lower than its successor
across the wrap.
---
 src/icl_core/src/icl_core/SequenceNumber.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/SequenceNumber.h b/src/icl_core/src/icl_core/SequenceNumber.h
index 147c353..18b834a 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.h
+++ b/src/icl_core/src/icl_core/SequenceNumber.h
@@ -87,11 +87,11 @@ public:
   {
     if (m_value < other.m_value)
     {
-      return (other.m_value - m_value) < max_value / 2;
+      return (other.m_value - m_value) < (max_value - min_value) / 2;
     }
     else
     {
-      return (m_value - other.m_value) > max_value / 2;
+      return (m_value - other.m_value) > (max_value - min_value) / 2;
     }
   }
 
-- 
2.43.0


From 78e0edb35d2acb69e63037f42a3db1dab3f611e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 03/62] fix: scale a time span as a whole

Scaling the seconds and the nanoseconds separately dropped the fraction of
a second (1s / 2 was 0s) and overflowed the nanoseconds (0.5s * 10).
---
 src/icl_core/src/icl_core/TimeSpan.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.h b/src/icl_core/src/icl_core/TimeSpan.h
index f67f2e0..6471699 100644
--- a/src/icl_core/src/icl_core/TimeSpan.h
+++ b/src/icl_core/src/icl_core/TimeSpan.h
@@ -209,13 +209,21 @@ inline TimeSpan operator - (const TimeSpan& left, const TimeSpan& right)
 
 inline TimeSpan operator / (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() / divisor), int32_t(span.tsNSec() / divisor));
+  // The fraction of a second left by scaling the seconds belongs to the nanoseconds.
+  double secs = span.tsSec() / divisor;
+  double nsecs = span.tsNSec() / divisor + (secs - int64_t(secs)) * 1e9;
+  int64_t carry = int64_t(nsecs / 1e9);
+  TimeSpan a(int64_t(secs) + carry, int32_t(nsecs - carry * 1e9));
   return a;
 }
 
 inline TimeSpan operator * (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() * divisor), int32_t(span.tsNSec() * divisor));
+  // The fraction of a second left by scaling the seconds belongs to the nanoseconds.
+  double secs = span.tsSec() * divisor;
+  double nsecs = span.tsNSec() * divisor + (secs - int64_t(secs)) * 1e9;
+  int64_t carry = int64_t(nsecs / 1e9);
+  TimeSpan a(int64_t(secs) + carry, int32_t(nsecs - carry * 1e9));
   return a;
 }
 
-- 
2.43.0


From e45bd7a973fca646aa1c4f5460c8c4a0de848cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 04/62] fix: print the microseconds of a time span as
 microseconds

---
 src/icl_core/src/icl_core/TimeSpan.cpp        | 2 +-
 src/icl_core/src/icl_core_logging/Logging.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..28f8305 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -256,7 +256,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 35ccdd7..240d302 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -83,7 +83,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From 83eb7900a13710d573f78c368ef865e4291e67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 05/62] fix: take only the sub-second part of a posix_time
 stamp as nanoseconds

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..f62a807 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -90,9 +90,9 @@ TimeStamp::TimeStamp(const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration since_base = ptime_stamp - unix_time_base;
+  secs = since_base.total_seconds();
+  nsecs = int32_t((since_base - boost::posix_time::seconds(secs)).total_nanoseconds());
   normalizeTime();
 }
 
@@ -100,9 +100,9 @@ TimeStamp& TimeStamp::operator = (const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration since_base = ptime_stamp - unix_time_base;
+  secs = since_base.total_seconds();
+  nsecs = int32_t((since_base - boost::posix_time::seconds(secs)).total_nanoseconds());
   normalizeTime();
   return *this;
 }
-- 
2.43.0


From e734dbc8128a7ebcc95942b4c2ffa3f35c763068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 06/62] fix: forget the parts of the previous text when a
 scheme is parsed

Parsing a text without scheme or anchor with a parser (or a result) that
was used before left the previous scheme and anchor in the result.
---
 src/icl_core/src/icl_core/SchemeParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index a30c605..9eedf6d 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -193,7 +193,8 @@ bool SchemeParser::parseScheme(const String &str, Scheme &scheme_handler,
   // scheme rule
   rule<> scheme_rule = !scheme_p[addScheme] >> specifier_p[addSpecifier] >> !anchor_p >> !query_p;
 
-  scheme_handler.queries.clear();
+  scheme_handler = Scheme();
+  scheme_handler.scheme_type = OtherScheme;
   info = parse(str.c_str(), scheme_rule);
 
   return info.full;
-- 
2.43.0


From 1dfd0e91e881d036b57db64713c24d25e693bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 07/62] fix: print the anchor of a scheme where the parser
 reads it

The parser takes the anchor before the queries; behind them it became part
of the last query value.
---
 src/icl_core/src/icl_core/SchemeParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index 9eedf6d..f35bcbc 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -30,6 +30,11 @@ std::ostream &operator<<(std::ostream &stream, const Scheme &scheme)
 {
   stream << scheme.scheme_name << scheme.specifier;
 
+  if (scheme.anchor.size() > 0)
+  {
+    stream << "#" << scheme.anchor;
+  }
+
   bool first = true;
   BOOST_FOREACH(Query query, scheme.queries)
   {
@@ -45,11 +50,6 @@ std::ostream &operator<<(std::ostream &stream, const Scheme &scheme)
     stream << query.name << "=" << query.value;
   }
 
-  if (scheme.anchor.size() > 0)
-  {
-    stream << "#" << scheme.anchor;
-  }
-
   return stream;
 }
 
-- 
2.43.0


From a1f5dc3a14671e1459399b61c8387b43a329ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 08/62] fix: keep the empty piece behind a trailing delimiter
 when splitting

join() is documented as the reverse of split(), but "a;" was split into
"a" alone, and ";" into one empty piece.
---
 src/icl_core/src/icl_core/StringHelper.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 71107e2..5234704 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -39,10 +39,7 @@ std::vector<String> split(const String& str, const String& delimiter)
     substrings.push_back(s.substr(0, pos));
     s.erase(0, pos+delimiter.size());
   }
-  if (!s.empty())
-  {
-    substrings.push_back(s);
-  }
+  substrings.push_back(s);
   return substrings;
 }
 
-- 
2.43.0


From 4b4c53eb90332f1f80862dca89162ef3c098b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 09/62] fix: do not read in front of an empty text when
 trimming it

---
 src/icl_core/src/icl_core/StringHelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 5234704..73a69a7 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -62,6 +62,10 @@ String trim(String const & str)
   std::string result = "";
 
   std::string::size_type length = str.length();
+  if (length == 0)
+  {
+    return result;
+  }
 
   std::string::size_type trim_front = 0;
   while ((trim_front < length) && isspace(static_cast<unsigned char>(str[trim_front])))
-- 
2.43.0


From f9e2e5faafc0872eb14601bbc7dae931814ffded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 10/62] fix: make ZBuffer::reset() empty the buffer

It named the member function size instead of a size and did not compile.
---
 src/icl_core/src/icl_core/ZBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/ZBuffer.h b/src/icl_core/src/icl_core/ZBuffer.h
index 19cb5d0..d6fb1a0 100644
--- a/src/icl_core/src/icl_core/ZBuffer.h
+++ b/src/icl_core/src/icl_core/ZBuffer.h
@@ -77,7 +77,7 @@ public:
   }
 
   //! Empties the Z buffer.
-  void reset() { m_buffer.assign(size); }
+  void reset() { m_buffer.assign(m_buffer.size(), boost::optional<T>()); }
   //! Returns the buffer size.
   const size_type size() const { return m_buffer.size(); }
   //! Read-only access to the buffer.
-- 
2.43.0


From d1c8a1d36d11cd95f85c570ff70cfe26953e7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 11/62] fix: initialise the item number of a data header

---
 src/icl_core/src/icl_core/DataHeader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/DataHeader.h b/src/icl_core/src/icl_core/DataHeader.h
index 9d71082..735009d 100644
--- a/src/icl_core/src/icl_core/DataHeader.h
+++ b/src/icl_core/src/icl_core/DataHeader.h
@@ -66,7 +66,8 @@ struct DataHeader
   DataHeader()
     : coordinate_system(),
       timestamp(),
-      sequence_number(0)
+      sequence_number(0),
+      dsin(0)
   { }
 
   //! Constructor.
@@ -75,7 +76,8 @@ struct DataHeader
              uint32_t sequence_number = 0)
     : coordinate_system(coordinate_system),
       timestamp(timestamp),
-      sequence_number(sequence_number)
+      sequence_number(sequence_number),
+      dsin(0)
   { }
 
   //! Destructor.
-- 
2.43.0


From 0ea771705e4bf916cf87bb17951aa86eda6aa4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 12/62] fix: SpinLock::tryLock() reported the opposite of its
 result

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From 7e5d4fb15d4f3af87ff8e6364a978f7e1d03bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 13/62] fix: waiting for a thread could fail or return before
 the thread had ended

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..5b1e0af 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -137,7 +137,7 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
@@ -240,11 +240,12 @@ void Thread::runThread()
   // Call the run loop.
   run();
 
+  LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
+
+  // As soon as the mutex is released a waiting thread goes on.
   m_execute = false;
-  m_thread_mutex.unlock();
   m_finished = true;
-
-  LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
+  m_thread_mutex.unlock();
 }
 
 bool Thread::wait()
-- 
2.43.0


From 8666cb75b61c7dfb511b42a14d20afe3177c7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 14/62] fix: a thread could not be started again after it had
 been cancelled

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index 5b1e0af..f1a1419 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -28,6 +28,7 @@
 
 #include "Common.h"
 #include "Logging.h"
+#include "ScopedMutexLock.h"
 
 #if defined _SYSTEM_LXRT_
 # include "ThreadImplLxrt.h"
@@ -184,13 +185,14 @@ bool Thread::start()
   }
 
   m_starting = true;
-  m_finished = false;
 
+  // A cancelled thread may still be running until here.
   if (!m_joined)
   {
     join();
   }
 
+  m_finished = false;
   m_joined = false;
 
   if (!m_impl->start())
@@ -228,7 +230,8 @@ void Thread::runThread()
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Begin." << endl);
 
-  m_thread_mutex.lock();
+  // The mutex is released also if the thread is cancelled.
+  ScopedMutexLock lock(m_thread_mutex);
   m_execute = true;
   m_starting = false;
   m_finished = false;
@@ -245,7 +248,6 @@ void Thread::runThread()
   // As soon as the mutex is released a waiting thread goes on.
   m_execute = false;
   m_finished = true;
-  m_thread_mutex.unlock();
 }
 
 bool Thread::wait()
-- 
2.43.0


From 345e409c35241bafd23458bcf40bb66dbf37b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 15/62] fix: a periodic thread left its timer open with every
 start

---
 .../PeriodicThreadImplTimerfd.cpp             | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..62a0e95 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -28,6 +28,7 @@
 #include "Logging.h"
 
 #include <sys/timerfd.h>
+#include <unistd.h>
 
 namespace icl_core {
 namespace thread {
@@ -41,18 +42,26 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
-  /* Create the timer */
-  int fd = timerfd_create(CLOCK_MONOTONIC, 0);
   m_info->wakeups_missed = 0;
-  m_info->timer_fd = fd;
-  if (fd != -1)
+
+  /* Create the timer, unless the thread has been started before */
+  if (!timer_created)
   {
-    timer_created = true;
+    int fd = timerfd_create(CLOCK_MONOTONIC, 0);
+    m_info->timer_fd = fd;
+    if (fd != -1)
+    {
+      timer_created = true;
+    }
   }
 
   setPeriod(m_period);
-- 
2.43.0


From 4ce248d7ccdfa7a653e736bceec4fef616fac9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 16/62] fix: destroying a running periodic thread took its
 timer away from it

---
 src/icl_core/src/icl_core_thread/PeriodicThread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThread.cpp b/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
index c9e98f3..37fb6b0 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
@@ -105,6 +105,10 @@ PeriodicThread::PeriodicThread(const icl_core::String& description,
 
 PeriodicThread::~PeriodicThread()
 {
+  // The thread needs the implementation as long as it is running.
+  stop();
+  join();
+
   delete m_impl; m_impl = NULL;
 }
 
-- 
2.43.0


From f8fa1e7a5291277b58df8bb4e0bbea0dd9685f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 17/62] fix: an operation queued while an active object stopped
 could be lost or break its queue

---
 .../src/icl_core_thread/ActiveObject.cpp      | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..aa20311 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -62,11 +62,16 @@ void ActiveObject::run()
     }
   }
 
-  // Delete any pending operations.
-  while (!m_operation_queue.empty())
+  // Delete any pending operations. From here on queue() does not
+  // accept new ones.
+  if (m_operation_queue_mutex.lock())
   {
-    delete m_operation_queue.front();
-    m_operation_queue.pop_front();
+    while (!m_operation_queue.empty())
+    {
+      delete m_operation_queue.front();
+      m_operation_queue.pop_front();
+    }
+    m_operation_queue_mutex.unlock();
   }
 
   onThreadStop();
@@ -80,10 +85,20 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  bool queued = false;
+  if (m_operation_queue_mutex.lock())
   {
-    m_operation_queue.push_back(active_operation);
+    // Must not change until the operation is in the queue.
+    if (execute())
+    {
+      m_operation_queue.push_back(active_operation);
+      queued = true;
+    }
     m_operation_queue_mutex.unlock();
+  }
+
+  if (queued)
+  {
     m_sem.post();
   }
   else
-- 
2.43.0


From 679781f566265bcf361a55cc6144c7ffa45a53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 18/62] fix: destroying a running active object never returned
 or crashed

---
 src/icl_core/src/icl_core_thread/ActiveObject.cpp | 7 +++++++
 src/icl_core/src/icl_core_thread/ActiveObject.h   | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index aa20311..e331a97 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -31,6 +31,13 @@ ActiveObject::ActiveObject(const icl_core::String& description, icl_core::Thread
 {
 }
 
+ActiveObject::~ActiveObject()
+{
+  // The thread waits for operations, so it has to be woken up.
+  stop();
+  join();
+}
+
 void ActiveObject::run()
 {
   onThreadStart();
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index cbd5326..b579372 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -49,6 +49,10 @@ public:
   ActiveObject(const icl_core::String& description,
                icl_core::ThreadPriority priority = 0);
 
+  /*! Stops the active object thread if it is still running.
+   */
+  virtual ~ActiveObject();
+
   /*! Processes the operation queue.  This function should not be
    *  overridden by subclasses.
    */
-- 
2.43.0


From fccee878fe42688c516e6ceb336b2205ba3f3481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 19/62] fix: detect the missing value of a long command line
 option

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..65a9840 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -151,7 +151,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         {
           // According to the regular expression the value has to be
           // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -182,7 +182,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From c87b4b7d8b384c9097b6e5b9b35bc71668132766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 20/62] fix: keep only non-option arguments when cleaning up
 the command line

---
 .../src/icl_core_config/GetoptParser.cpp      | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 65a9840..6a7f45d 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -133,8 +133,11 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   boost::regex long_opt_regex("--([^-][^=]*)(=(.*))?");
   boost::regex short_opt_regex("-([^-].*)");
   boost::smatch mres;
+  // Commandline arguments which are kept by the cleanup.
+  icl_core::Vector<bool> keep(argc, false);
+  int index = 1;
   for (icl_core::List<icl_core::String>::const_iterator arg_it = arguments.begin();
-       arg_it != arguments.end(); ++arg_it)
+       arg_it != arguments.end(); ++arg_it, ++index)
   {
     if (extra_cmd_params_reached)
     {
@@ -212,6 +215,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            keep[index] = true;
           }
         }
       }
@@ -227,6 +231,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         {
           // The value is the next commandline argument.
           ++arg_it;
+          ++index;
           if (arg_it == arguments.end())
           {
             std::cerr << "Found option -" << name << " but the value is missing." << std::endl;
@@ -260,6 +265,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
             {
               // The value is the next commandline argument.
               ++arg_it;
+              ++index;
               if (arg_it == arguments.end())
               {
                 std::cerr << "Found prefix option " << name << " but the value is missing." << std::endl;
@@ -290,6 +296,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            keep[index] = true;
           }
         }
       }
@@ -327,6 +334,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 //      else
       {
         m_param_non_opt.push_back(*arg_it);
+        keep[index] = true;
       }
     }
   }
@@ -349,24 +357,15 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   // Remove all option parameters from the "real" commandline.
   if (cleanup == eCLC_Cleanup)
   {
-    int check = 1;
-    while (check < argc)
+    int kept = 1;
+    for (int check = 1; check < argc; ++check)
     {
-      icl_core::Vector<icl_core::String>::const_iterator find_it =
-        std::find(m_param_non_opt.begin(), m_param_non_opt.end(), icl_core::String(argv[check]));
-      if (find_it == m_param_non_opt.end())
+      if (keep[check])
       {
-        for (int move = check + 1; move < argc; ++move)
-        {
-          argv[move - 1] = argv[move];
-        }
-        --argc;
-      }
-      else
-      {
-        ++check;
+        argv[kept++] = argv[check];
       }
     }
+    argc = kept;
   }
 
   return true;
-- 
2.43.0


From 49bd7ab97849324e34a9902d8e05609d87b250b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 21/62] fix: report configuration values which do not denote a
 value of the requested type

---
 src/icl_core/src/icl_core_config/Util.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index fac3669..9e4283b 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,8 +36,27 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
+//! Extract a value. Throws if the text does not denote a value of type \a T.
+template <typename T>
+void hexical_extract(std::stringstream& interpreter, T& result)
+{
+  interpreter >> result;
+  if (interpreter.fail())
+  {
+    throw std::invalid_argument("Not a valid value: " + interpreter.str());
+  }
+}
+
+//! A text denotes itself, including its whitespace.
+inline
+void hexical_extract(std::stringstream& interpreter, std::string& result)
+{
+  result = interpreter.str();
+}
+
 /*! Lexical cast which handles hexadecimal and octal numbers
- *  correctly.
+ *  correctly.  If the input does not denote a value of type \a T,
+ *  std::invalid_argument is thrown.
  */
 template <typename T, typename U>
 T hexical_cast(U input)
@@ -46,7 +65,7 @@ T hexical_cast(U input)
   interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
   interpreter << input;
   T result;
-  interpreter >> result;
+  hexical_extract(interpreter, result);
   return result;
 }
 
-- 
2.43.0


From 0389b47039047a5ef9552b90ad2b398abe8bb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 22/62] fix: keep a copy of the default value of a
 configuration parameter

---
 src/icl_core/src/icl_core_config/ConfigEnumDefault.h  | 2 +-
 src/icl_core/src/icl_core_config/ConfigValueDefault.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
index 5b38c95..9459b20 100644
--- a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
@@ -72,7 +72,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
diff --git a/src/icl_core/src/icl_core_config/ConfigValueDefault.h b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
index fab3eab..b6be348 100644
--- a/src/icl_core/src/icl_core_config/ConfigValueDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
@@ -70,7 +70,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
-- 
2.43.0


From 9ae70766e55c49ff532a54c96905ad97f424f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 23/62] fix: do not treat the key of a configuration observer
 as a regular expression

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..e680023 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -309,7 +309,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From 512a34e7554b3aa39acb6fc911110827f1269d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 24/62] fix: read boolean command line parameters given as yes
 or no

---
 src/icl_core/src/icl_core_config/Util.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index 9e4283b..c62e7d6 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -54,6 +54,9 @@ void hexical_extract(std::stringstream& interpreter, std::string& result)
   result = interpreter.str();
 }
 
+//! Boolean values are given by name, too.
+inline void hexical_extract(std::stringstream& interpreter, bool& result);
+
 /*! Lexical cast which handles hexadecimal and octal numbers
  *  correctly.  If the input does not denote a value of type \a T,
  *  std::invalid_argument is thrown.
@@ -125,6 +128,12 @@ bool strict_bool_cast(U input)
   }
 }
 
+inline
+void hexical_extract(std::stringstream& interpreter, bool& result)
+{
+  result = strict_bool_cast(interpreter.str());
+}
+
 }
 }
 }
-- 
2.43.0


From 733e0cbbc8cc95c331317808b2b60b4ce9fd4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 25/62] fix: attribute tree look-ups in a node without subtrees

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 0afbbe5..2527745 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -960,10 +960,10 @@ char *AttributeTree::getSpecialAttribute(const char *description, AttributeTree
 {
   // search recursive to the root for that attribute
   AttributeTree *at_path_parent = this;
-  AttributeTree *at_path = at_path_parent->m_subtree_list->subTree(description);
+  AttributeTree *at_path = NULL;
   while (at_path_parent && at_path == NULL)
   {
-    at_path = at_path_parent->m_subtree_list->subTree(description);
+    at_path = at_path_parent->getSubTree(description);
     at_path_parent = at_path_parent->parentTree();
   }
 
@@ -1020,7 +1020,7 @@ char *AttributeTree::getAttribute(const char *param_description, const char *def
             *description_part = 0;
             description_part++;
           }
-          at = at->m_subtree_list->subTree(next_description);
+          at = at->getSubTree(next_description);
         }
         // now we are at the inner attribute tree
         // is there an attribute
@@ -1088,7 +1088,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (m_subtree_list->subTree(description) && i < 100000)
+  while (getSubTree(description) && i < 100000)
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
@@ -1110,7 +1110,7 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
 {
   if (tree)
   {
-    if (m_subtree_list->subTree(tree->m_this_description))
+    if (tree->m_this_description && getSubTree(tree->m_this_description))
     {
       char *new_description = newSubNodeDescription(tree->m_this_description);
       free(tree->m_this_description);
-- 
2.43.0


From c97b940ad0482b439fb85d6112ec7af9cd336353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 26/62] fix: requesting an attribute tree node must not clear
 its attribute

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 2527745..6ba603a 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -917,7 +917,10 @@ AttributeTree *AttributeTree::setAttribute(const char *param_description, const
     //printf("c:%p \n",ret);
     return ret;
   }
-  setAttribute(attribute);
+  if (attribute)
+  {
+    setAttribute(attribute);
+  }
   return this;
 }
 
@@ -929,7 +932,10 @@ AttributeTree* AttributeTree::setAttribute(const char *description, const char *
   {
     // Keine Description -> Wir sind am Endknoten -> Eintrag machen
     //  printf("set attribute: %s :%s\n",m_this_description,attribute);
-    setAttribute(attribute);
+    if (attribute)
+    {
+      setAttribute(attribute);
+    }
 
     return this;
   }
@@ -1588,7 +1594,7 @@ bool AttributeTree::hasMultilineComment()
 
 void AttributeTree::setComment(const char *comment)
 {
-  setAttribute(comment_str, comment);
+  subTree(comment_str)->setAttribute(comment);
 }
 
 ////////////// DEPRECATED VERSIONS //////////////
-- 
2.43.0


From bc573ca19f51eb2abc252a0d129e12ac57f088ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 27/62] fix: newSubNodeDescription reads before the beginning
 of the description

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 6ba603a..beaf0fc 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1081,7 +1081,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
   // find the maxima length of number in base_description
   if (base_len>0)
   {
-    while (base_len>=j-1 &&
+    while (base_len > j &&
            sscanf(description+base_len-j-1, "%i", &i)==1)
     {
       j++;
-- 
2.43.0


From c497b32df46a8f2b5db8d33534b4c4a3099032b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 28/62] fix: attribute tree comment nodes without a text

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index beaf0fc..e335add 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1571,7 +1571,7 @@ bool AttributeTree::isComment()
 
 bool AttributeTree::isMultilineComment()
 {
-  return isComment() && (strchr(attribute(), '\n') != NULL);
+  return isComment() && attribute() && (strchr(attribute(), '\n') != NULL);
 }
 
 const char* AttributeTree::comment()
-- 
2.43.0


From ae989641be877c8a023579f6fd4e6a7960256cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 29/62] fix: copying an attribute tree reverses the order of
 its subtrees

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index e335add..3f27aa4 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -488,12 +488,13 @@ void SubTreeList::copy(AttributeTree *parent)
   assert(parent != NULL
          && "SubTreeList::copy() called with NULL parent! Allocated attribute tree would be lost!");
 
-  SubTreeList *loop = this;
-  while (loop)
+  // New trees are inserted at the front of the parent's list, so start
+  // with the last one to keep the order.
+  if (m_next)
   {
-    new AttributeTree(*loop->m_sub_tree, parent);
-    loop = loop->m_next;
+    m_next->copy(parent);
   }
+  new AttributeTree(*m_sub_tree, parent);
 }
 
 void SubTreeList::unlinkParent()
-- 
2.43.0


From 06c020f0812a9794b56bd5f40da784cbcedd3b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 30/62] fix: AttributeTree::changed() misses structural changes

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 3f27aa4..dba01a5 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -699,6 +699,7 @@ AttributeTree::AttributeTree(const char *description, AttributeTree *parent)
   if (m_parent)
   {
     m_parent->m_subtree_list = new SubTreeList(this, m_parent->m_subtree_list);
+    m_parent->m_changed = true;
   }
 }
 
@@ -780,6 +781,7 @@ AttributeTree::AttributeTree(const AttributeTree &tree, AttributeTree *parent)
   if (m_parent)
   {
     m_parent->m_subtree_list = new SubTreeList(this, m_parent->m_subtree_list);
+    m_parent->m_changed = true;
   }
 
   m_changed = false;
@@ -820,6 +822,7 @@ void AttributeTree::unlinkSub()
     m_subtree_list->unlinkParent();
     // den Unterbaumzeiger auf 0
     m_subtree_list = 0;
+    m_changed = true;
   }
 }
 
@@ -851,12 +854,13 @@ void AttributeTree::setDescription(const char *description)
   {
     m_this_description = 0;
   }
+  m_changed = true;
 }
 
 void AttributeTree::setAttribute(const char *attribute)
 {
   //printf("Change Attribute:%s %s\n",m_this_attribute,attribute);
-  if (!m_this_attribute || !attribute || strcmp(attribute, m_this_attribute))
+  if (!m_this_attribute || !attribute ? m_this_attribute != attribute : strcmp(attribute, m_this_attribute) != 0)
   {
     free(m_this_attribute);
     if (attribute)
@@ -1134,6 +1138,7 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
     }
 
     tree->m_parent = this;
+    m_changed = true;
     return tree;
   }
   else
-- 
2.43.0


From 2ec322bf5aeecb5b036a749b2153f3a550f6196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 31/62] fix: adding an attribute tree which is still linked to
 another one

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index dba01a5..6d4c620 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1121,6 +1121,9 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
 {
   if (tree)
   {
+    // A tree can only be part of one other tree.
+    tree->unlink();
+
     if (tree->m_this_description && getSubTree(tree->m_this_description))
     {
       char *new_description = newSubNodeDescription(tree->m_this_description);
-- 
2.43.0


From fe70a0ed3a8c41ce6f89bdaa3acd6779e6e9d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 32/62] fix: saved attribute trees which do not load as the
 same tree

---
 .../src/icl_core_config/AttributeTree.cpp     | 19 ++++++++++++++++---
 .../src/icl_core_config/AttributeTree.h       |  7 +++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 6d4c620..4f4905f 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1178,10 +1178,10 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   }
 
   int contents = contains();
-  if (contents >= change_style_depth || hasMultilineComment())
+  if (contents >= change_style_depth || needsSection())
   {
     out << the_upper_description << t_description << '{' << endl;
-    if (m_this_attribute && strcmp(m_this_attribute, ""))
+    if (m_this_attribute)
     {
       out << the_upper_description << ':' << m_this_attribute << endl;
     }
@@ -1205,7 +1205,7 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
     assert(description != NULL); // Just abort if we are out of memory.
     memset(description, 0, len + 1);
 
-    if ((tud_len > 0) && (the_upper_description[tud_len-1] == ' '))
+    if ((tud_len == 0) || (the_upper_description[tud_len-1] == ' '))
     {
       strcat(strcpy(description, the_upper_description), t_description);
     }
@@ -1601,6 +1601,19 @@ bool AttributeTree::hasMultilineComment()
   return strchr(comment(), '\n') != NULL;
 }
 
+bool AttributeTree::needsSection()
+{
+  for (AttributeTree *loop = firstSubTree(); loop; loop = nextSubTree(loop))
+  {
+    if (loop->isMultilineComment() || loop->needsSection()
+        || (loop->m_this_description && !strcmp(loop->m_this_description, include_str)))
+    {
+      return true;
+    }
+  }
+  return false;
+}
+
 void AttributeTree::setComment(const char *comment)
 {
   subTree(comment_str)->setAttribute(comment);
diff --git a/src/icl_core/src/icl_core_config/AttributeTree.h b/src/icl_core/src/icl_core_config/AttributeTree.h
index 54d32b9..9d69a77 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.h
+++ b/src/icl_core/src/icl_core_config/AttributeTree.h
@@ -963,6 +963,13 @@ public:
 
 
 private:
+  /*! Checks if this tree contains an entry which can only be written
+   *  to a file in a section of its own, because it is not recognized
+   *  when it follows a node description: multiline comments and
+   *  include directives.
+   */
+  bool needsSection();
+
   void split(char *&description, char *&sub_description);
   void appendString(char * &dest, const char *src, const char *separator);
 
-- 
2.43.0


From 675311e2a91e29fd008cc745e9fe08fbcf5a3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 33/62] fix: attribute tree files with long or unterminated
 lines

---
 .../src/icl_core_config/AttributeTree.cpp     | 42 +++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 4f4905f..381ed85 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -58,17 +58,19 @@ int file_path_str_len = 0;
 int file_name_str_len = 0;
 const int INCLUDE_OFFSET = 10;
 
-static char buffer[2000];
-
-void readNextLineInBuffer(istream &in)
+//! Reads the next line, returns \c false if there is none.
+static bool readNextLineInBuffer(istream &in, string &buffer)
 {
-  in.getline(buffer, 1998);
+  bool found = !std::getline(in, buffer).fail();
   // Window/Unix
-  int line_length=strlen(buffer);
+  string::size_type line_length = buffer.length();
   if (line_length > 0 && buffer[line_length-1]=='\r')
   {
-    buffer[line_length-1]=0;
+    buffer.erase(line_length-1);
   }
+  // The line is modified in place.
+  buffer.push_back('\0');
+  return found;
 }
 
 // ===============================================================
@@ -1303,20 +1305,16 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
 int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                        const class FilePath *file_path)
 {
-  // save stack memory on reccursive calls!
-  // without static in the insmod call for the RTL-module we crash !
-  buffer[1999] = 0;
+  string buffer;
   char *attribute, *line;
   AttributeTree *at = this;
   int lineno = 1;
 
-  readNextLineInBuffer(in);
-
-  do
+  while (readNextLineInBuffer(in, buffer))
   {
     //LOCAL_PRINTF("get next line %i\n",lineno);
     lineno++;
-    line = buffer;
+    line = &buffer[0];
     while (isspace(*line))
     {
       line++;
@@ -1384,19 +1382,21 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             do
             {
               lineno++;
-              readNextLineInBuffer(in);
-              line = buffer;
-              char *line_end = buffer + strlen(buffer);
-              line_end--;
+              if (!readNextLineInBuffer(in, buffer))
+              {
+                return lineno;
+              }
+              line = &buffer[0];
+              char *line_end = line + strlen(line);
               while (isspace(*line))
               {
                 line++;
               }
-              while (line_end >= buffer && isspace(*line_end))
+              while (line_end > line && isspace(*(line_end - 1)))
               {
                 line_end--;
               }
-              *(line_end + 1) = 0;
+              *line_end = 0;
               comment_end = (strstr(line, comment_end_str) != NULL);
 
               if (load_comments && !comment_end)
@@ -1433,7 +1433,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           }
           else
           {
-            if (!in.eof() && line[0])
+            if (line[0])
             {
               //LOCAL_PRINTF("AttributeTree::get >> found '%s' and could not interpret\n", line);
               return lineno;
@@ -1442,9 +1442,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
         }
       }
     }
-    readNextLineInBuffer(in);
   }
-  while (!in.eof());
   return -1;
 }
 
-- 
2.43.0


From f880e1d97e6a4800760b3efbc211cb280d47c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 34/62] fix: FilePath::extension() of a file without an
 extension

---
 src/icl_core/src/icl_core_config/AttributeTree.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.h b/src/icl_core/src/icl_core_config/AttributeTree.h
index 9d69a77..87e3963 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.h
+++ b/src/icl_core/src/icl_core_config/AttributeTree.h
@@ -91,6 +91,12 @@ public:
    */
   icl_core::String extension() const
   {
+    // No extension, or only a dot in a directory name?
+    if (m_file_name_extension_split == icl_core::String::npos
+        || m_file_name_extension_split < m_file_path_name_split)
+    {
+      return icl_core::String();
+    }
     return icl_core::String(m_file, m_file_name_extension_split, icl_core::String::npos);
   }
 
-- 
2.43.0


From 8649f57305fdc9898c7058b4e4df3a4c15053cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 35/62] fix: a thread cancelled right after its start counted
 as running forever

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index f1a1419..5cd8caa 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -233,8 +233,9 @@ void Thread::runThread()
   // The mutex is released also if the thread is cancelled.
   ScopedMutexLock lock(m_thread_mutex);
   m_execute = true;
-  m_starting = false;
   m_finished = false;
+  // From here on the thread may be cancelled, which marks it as finished.
+  m_starting = false;
 
   // If this is actually a periodic thread, this call makes it periodic.
   // It this is a "normal" thread, this call does nothing.
-- 
2.43.0


From 520de64925410ce16597a79fce94c1d33acef584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 36/62] fix: attribute tree comments and include directives
 saved as sections

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 381ed85..ee8c077 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1180,7 +1180,10 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   }
 
   int contents = contains();
-  if (contents >= change_style_depth || needsSection())
+  // comments and include directives are only recognized in one line
+  bool single_line = m_this_description && (!strcmp(m_this_description, comment_str)
+                                            || !strcmp(m_this_description, include_str));
+  if (!single_line && (contents >= change_style_depth || needsSection()))
   {
     out << the_upper_description << t_description << '{' << endl;
     if (m_this_attribute)
-- 
2.43.0


From 8fd80e773fab99889fd0f5719fdf120a5d28f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 37/62] fix: normalizing paths which lead above their first
 directory

---
 .../src/icl_core_config/AttributeTree.cpp     | 43 ++++---------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index ee8c077..e5d3389 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -171,46 +171,19 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> DoubleDots '%s' found at %i\n",
     //         filename.c_str(), dot_start);
 
-    // Check if we can shorten the path.
-    slash_before_dot = filename.rfind(DSEP, dot_start - 1);
-    if (slash_before_dot != string::npos)
+    // Check if we can shorten the path: Is there a directory in front
+    // of the double dots?
+    slash_before_dot = dot_start > 0 ? filename.rfind(DSEP, dot_start - 1) : string::npos;
+    string::size_type directory_start = slash_before_dot == string::npos ? 0 : slash_before_dot + 1;
+    string directory(filename, directory_start, dot_start - directory_start);
+    if (!directory.empty() && directory != ".." && directory[directory.length()-1] != ':')
     {
-      // OK to shorten?
-      if (filename[slash_before_dot+1] != DSEP && filename[slash_before_dot+1] != '.' &&
-          (slash_before_dot >= 1) ? filename[slash_before_dot-1] != ':' : 1)
-      {
-        dot_start += 3;
-        string temp_filename(filename, 0, slash_before_dot);
-        temp_filename.append(filename, dot_start, filename.length() - dot_start);
-        temp_filename.swap(filename);
-      }
-      else
-      {
-        break;
-      }
-
-      dot_start = slash_before_dot;
-    }
-    else if (dot_start > 0)
-    {
-      string temp_filename;
-
-#ifdef _SYSTEM_WIN32_
-      // Add drive letter?
-      if (filename[1] = ':')
-      {
-        temp_filename.append(filename, 0, 2);
-      }
-#endif
-      // Really??
-      dot_start += 2;
-      temp_filename.append(filename, dot_start, filename.length() - dot_start);
-      temp_filename.swap(filename);
+      filename.erase(directory_start, dot_start + 4 - directory_start);
       dot_start = 0;
     }
     else
     {
-      break;
+      ++dot_start;
     }
 
     dot_start = filename.find(string(1, DSEP) + ".." + DSEP, dot_start);
-- 
2.43.0


From d25649e0108ec059fe7317c7b951d5a8c7fb2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 38/62] fix: FilePath::currentDir() did not end with a
 separator

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index e5d3389..9d7b21d 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -81,7 +81,7 @@ icl_core::String FilePath::absolutePath(const icl_core::String& filename) const
 {
   if (isRelativePath(filename))
   {
-    return normalizePath(currentDir() + DSEP + filename);
+    return normalizePath(currentDir() + filename);
   }
   else
   {
@@ -419,6 +419,10 @@ void FilePath::init(const char* filename)
   }
 #endif
   m_pwd = normalizePath(m_pwd);
+  if (m_pwd.empty() || m_pwd[m_pwd.length()-1] != DSEP)
+  {
+    m_pwd += DSEP;
+  }
 
   m_file = normalizePath(absolutePath(exchangeSeparators(string(filename))));
 
-- 
2.43.0


From 4d0cae12861aaca4b0c8dd8d39e986d06741a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 39/62] fix: environment variables referring to themselves made
 replaceEnvironment() loop for ever

---
 .../src/icl_core_config/AttributeTree.cpp     | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9d7b21d..635b894 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -26,6 +26,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <utility>
+#include <vector>
 
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
@@ -259,9 +261,16 @@ icl_core::String FilePath::replaceEnvironment(const icl_core::String& _filename)
 
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::replaceEnvironment(%s)\n", filename.c_str());
 
+  // The variables whose value is being searched for references, each
+  // with the number of characters behind its value.
+  std::vector<std::pair<string, string::size_type> > open;
   string::size_type dot_start = filename.find("${");
   while (dot_start != string::npos)
   {
+    while (!open.empty() && filename.length() - dot_start <= open.back().second)
+    {
+      open.pop_back();
+    }
     dot_start += 2;
     string::size_type dot_end = filename.find("}", dot_start);
     if (dot_end == string::npos)
@@ -272,12 +281,24 @@ icl_core::String FilePath::replaceEnvironment(const icl_core::String& _filename)
       return _filename;
     }
     string var_name(filename, dot_start, dot_end - dot_start);
+    bool is_open = false;
+    for (std::size_t i = 0; i < open.size(); ++i)
+    {
+      is_open = is_open || open[i].first == var_name;
+    }
+    if (is_open)
+    {
+      // A variable whose value refers to itself.
+      dot_start = filename.find("${", dot_end + 1);
+      continue;
+    }
+    open.push_back(std::make_pair(var_name, filename.length() - (dot_end + 1)));
     string temp_filename(filename, 0, dot_start - 2);
     temp_filename += getEnvironment(var_name);
     temp_filename += string(filename, dot_end + 1, string::npos);
     filename.swap(temp_filename);
 
-    dot_start = filename.find("${");
+    dot_start = filename.find("${", dot_start - 2);
   }
 
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::replaceEnvironment(%s) done (%s)\n",
-- 
2.43.0


From 4a00c158f323b4946a005aa8b6533c4b7db79379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 40/62] fix: normalizing relative paths with doubled separators
 made them absolute

---
 .../src/icl_core_config/AttributeTree.cpp      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 635b894..4e6d377 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -135,8 +135,9 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   {
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
     //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
-    temp_filename.swap(filename);
+    // Further separators go as well, else the path would become an
+    // absolute one.
+    filename.erase(0, filename.find_first_not_of(DSEP, 1));
   }
 #ifdef _SYSTEM_WIN32_
   // Search for single dots after the drive letter at the beginning.
@@ -180,7 +181,13 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
     string directory(filename, directory_start, dot_start - directory_start);
     if (!directory.empty() && directory != ".." && directory[directory.length()-1] != ':')
     {
-      filename.erase(directory_start, dot_start + 4 - directory_start);
+      string::size_type directory_end = dot_start + 4;
+      if (directory_start == 0)
+      {
+        // As above.
+        directory_end = filename.find_first_not_of(DSEP, directory_end - 1);
+      }
+      filename.erase(directory_start, directory_end - directory_start);
       dot_start = 0;
     }
     else
@@ -196,8 +203,9 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   {
     //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
     //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
-    temp_filename.swap(filename);
+    // Further separators go as well, else the path would become an
+    // absolute one.
+    filename.erase(0, filename.find_first_not_of(DSEP, 1));
   }
 #ifdef _SYSTEM_WIN32_
   dot_start = 0;
-- 
2.43.0


From 879d479a38fe34b8a4542fc42a8980fb1eed0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 41/62] fix: log streams were used after their deletion when
 logging was initialised again

---
 src/icl_core/src/icl_core_logging/LogStream.h | 2 +-
 src/icl_core/src/icl_core_logging/Logging.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogStream.h b/src/icl_core/src/icl_core_logging/LogStream.h
index 9b24841..d8a25b1 100644
--- a/src/icl_core/src/icl_core_logging/LogStream.h
+++ b/src/icl_core/src/icl_core_logging/LogStream.h
@@ -62,7 +62,7 @@ public:
    */
   LogStream(const icl_core::String& name, icl_core::logging::LogLevel initial_level = cDEFAULT_LOG_LEVEL);
 
-  ~LogStream();
+  virtual ~LogStream();
 
   //! Return the name of the log stream.
   icl_core::String name() const { return m_name; }
diff --git a/src/icl_core/src/icl_core_logging/Logging.h b/src/icl_core/src/icl_core_logging/Logging.h
index db74997..7af3bb6 100644
--- a/src/icl_core/src/icl_core_logging/Logging.h
+++ b/src/icl_core/src/icl_core_logging/Logging.h
@@ -68,7 +68,7 @@
     name()                                                         \
       : LogStream(#name)                                           \
     { }                                                            \
-    ~name() { }                                                    \
+    ~name() { m_instance = NULL; }                                 \
     static name *m_instance;                                       \
     friend class ::icl_core::logging::LoggingManager;              \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;  \
@@ -87,7 +87,7 @@
     name()                                                              \
       : LogStream(#name)                                                \
     { }                                                                 \
-    ~name() { }                                                         \
+    ~name() { m_instance = NULL; }                                      \
     static name *m_instance;                                            \
     friend class ::icl_core::logging::LoggingManager;                   \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;       \
-- 
2.43.0


From 732be103e700ade19b474bf2549058ce11ac6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 42/62] fix: initialising logging again kept parts of the
 previous logging configuration

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index c267252..7c6c5cd 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -47,6 +47,10 @@ void LoggingManager::initialize()
   {
     m_initialized = true;
 
+    // Forget the configuration of an earlier initialization.
+    m_output_stream_config.clear();
+    m_log_stream_config.clear();
+
     // Read the log output stream configuration.
     ::icl_core::config::ConfigIterator output_stream_it =
         ::icl_core::config::find("\\/IclCore\\/Logging\\/(OutputStream.*)\\/(.*)");
-- 
2.43.0


From e868f93261e9dc621ea60a935e264bd84fd3675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 43/62] fix: a released thread stream could lose what its next
 user had written already

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..89eac30 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -135,6 +135,8 @@ void ThreadStream::flush()
                     m_classname, m_objectname, m_function, m_data);
     }
 
+    // The stream may be used by another thread as soon as it is released.
+    m_write_index = 0;
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -142,8 +144,8 @@ void ThreadStream::flush()
   else
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
+    m_write_index = 0;
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From b154eacedc9c008dd24db16415c02a5446fe22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 44/62] fix: a log message could carry the source location of
 an earlier message or uninitialised memory

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 89eac30..1844a18 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -137,6 +137,11 @@ void ThreadStream::flush()
 
     // The stream may be used by another thread as soon as it is released.
     m_write_index = 0;
+    m_classname[0] = '\0';
+    m_filename[0] = '\0';
+    m_objectname[0] = '\0';
+    m_function[0] = '\0';
+    m_line = 0;
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -155,7 +160,9 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_line(0),
     m_write_index(0)
 {
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
-- 
2.43.0


From 0bb2f208afe91b0cc325c8b5868b62bbb8ee46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 45/62] fix: an over-long printf log message ended with a zero
 character inside its text

---
 .../src/icl_core_logging/ThreadStream.cpp      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 1844a18..711d3df 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -109,9 +109,14 @@ void ThreadStream::printf(const char *fmt, ...)
 
   if (bytes_printed >= 0)
   {
-    if (size_t(bytes_printed) > writable_length)
+    if (writable_length == 0)
     {
-      m_write_index += writable_length;
+      // Nothing has been written.
+    }
+    else if (size_t(bytes_printed) >= writable_length)
+    {
+      // The terminating zero is not part of the text.
+      m_write_index += writable_length - 1;
     }
     else
     {
@@ -412,9 +417,14 @@ ThreadStream& operator << (ThreadStream& stream, const QString& value)
 
     if (bytes_printed >= 0)
     {
-      if (size_t(bytes_printed) > writable_length)
+      if (writable_length == 0)
+      {
+        // Nothing has been written.
+      }
+      else if (size_t(bytes_printed) >= writable_length)
       {
-        m_write_index += writable_length;
+        // The terminating zero is not part of the text.
+        m_write_index += writable_length - 1;
       }
       else
       {
-- 
2.43.0


From c66ba5adb2aea2e524294f680e221a21b06d2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 46/62] fix: logging a large floating point number read past
 the end of a buffer

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 711d3df..ac53b3b 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -281,8 +281,9 @@ ThreadStream& operator << (ThreadStream& stream, const std::string& text)
 
 ThreadStream& operator << (ThreadStream& stream, double value)
 {
-  char local_buffer[100];
-  size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // The largest value has 309 digits in front of the decimal point.
+  char local_buffer[330];
+  size_t length = os::snprintf(local_buffer, 330, "%f", value);
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From ee6405c10cfb8a6718de14b1da8ea04aae9bf930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 47/62] fix: over-long items of a log message were not
 terminated

---
 .../src/icl_core_logging/LogOutputStream.cpp   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..6aa9e90 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -669,12 +669,18 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
     log_level(log_level),
     line(line)
 {
-  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::log_stream[cMAX_IDENTIFIER_LENGTH] = '\0';
+  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::filename[cMAX_DESCRIPTION_LENGTH] = '\0';
+  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::class_name[cMAX_IDENTIFIER_LENGTH] = '\0';
+  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::object_name[cMAX_DESCRIPTION_LENGTH] = '\0';
+  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::function_name[cMAX_IDENTIFIER_LENGTH] = '\0';
+  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE);
+  LogMessage::message_text[cDEFAULT_LOG_SIZE] = '\0';
 }
 
 }
-- 
2.43.0


From 1152a1aa9e4e623927fdee37b664abcf5d50d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 48/62] fix: long or unterminated entries of a log format were
 written and read out of bounds

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 19 +++++++------------
 .../src/icl_core_logging/LogOutputStream.h    |  9 +++------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 6aa9e90..2d4f2f2 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -407,13 +407,11 @@ void LogOutputStream::parseLogFormat(const char *format)
     }
 
     // Read optional prefix text.
-    char *prefix_ptr = new_entry.text;
     while (format[0] != 0 && format[0] != 'C' && format[0] != 'O' && format[0] != 'D'
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
@@ -427,15 +425,15 @@ void LogOutputStream::parseLogFormat(const char *format)
       new_entry.type = LogFormatEntry::eT_OBJECTNAME;
       if (new_entry.text[0] == '(')
       {
-        std::strncpy(new_entry.suffix, ")", 100);
+        new_entry.suffix = ")";
       }
       else if (new_entry.text[0] == '[')
       {
-        std::strncpy(new_entry.suffix, "]", 100);
+        new_entry.suffix = "]";
       }
       else if (new_entry.text[0] == '{')
       {
-        std::strncpy(new_entry.suffix, "}", 100);
+        new_entry.suffix = "}";
       }
     }
     else if (format[0] == 'D')
@@ -474,21 +472,18 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
-    char *text_ptr = new_entry.text;
     while (format[0] != '~' && format[0] != 0)
     {
-      *text_ptr = format[0];
-      ++text_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
-    if (new_entry.text[0] != 0)
+    if (!new_entry.text.empty())
     {
       m_new_log_format.push_back(new_entry);
     }
diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 491154c..cd421ec 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -326,15 +326,12 @@ private:
 
     LogFormatEntry()
       : type(eT_TEXT), width(0)
-    {
-      icl_core::os::memset(text, 0, 100);
-      icl_core::os::memset(suffix, 0, 100);
-    }
+    { }
 
     EntryType type;
     size_t width;
-    char text[100];
-    char suffix[100];
+    icl_core::String text;
+    icl_core::String suffix;
   };
 
   /*! This virtual function is called from the worker thread just
-- 
2.43.0


From 3380b8fbe5a8cd42fd8a087844ffbf4f735198a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 49/62] fix: the LLOGGING macros with an object name or a
 format did not compile

---
 .../icl_core_logging/LoggingMacros_LLOGGING.h | 10 +++----
 .../LoggingMacros_LLOGGING_FMT.h              | 30 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
index cce1304..f0c940b 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
@@ -91,12 +91,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, arg)
-# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, arg)
-# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, arg)
+# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, arg)
+# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, arg)
+# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, arg)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, arg)
-#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, arg)
+#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, arg)
+#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, arg)
 # else
 #  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) (void)0
 #  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) (void)0
diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
index 51daec0..6ca5707 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
@@ -27,12 +27,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
-# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
+# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG(streamname, ...) (void)0
 #  define LLOGGING_FMT_TRACE(streamname, ...) (void)0
@@ -47,12 +47,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) (void)0
@@ -67,12 +67,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) (void)0
-- 
2.43.0


From a94ae712dd937ea2a233c6917a4f848f2c352a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:51 +0000
Subject: [PATCH 50/62] fix: outputs created when logging is configured again
 were never started

---
 .../src/icl_core_logging/LoggingManager.cpp   | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index 7c6c5cd..188e7f6 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -128,18 +128,7 @@ void LoggingManager::initialize()
     m_log_output_streams[output_stream_name] = output_stream;
     QuickDebug::instance().addOutputStream(output_stream);
     QuickDebug::instance().m_initial_level = eLL_TRACE;
-  }
-
-  // Run the log output stream threads.
-  if (m_default_log_output != 0)
-  {
-    m_default_log_output->start();
-  }
-  for (LogOutputStreamMap::iterator output_stream_it = m_log_output_streams.begin();
-       output_stream_it != m_log_output_streams.end();
-       ++output_stream_it)
-  {
-    output_stream_it->second->start();
+    output_stream->start();
   }
 }
 
@@ -290,6 +279,18 @@ void LoggingManager::configure()
       }
     }
   }
+
+  // Run the log output stream threads.
+  if (m_default_log_output != 0)
+  {
+    m_default_log_output->start();
+  }
+  for (LogOutputStreamMap::iterator output_stream_it = m_log_output_streams.begin();
+       output_stream_it != m_log_output_streams.end();
+       ++output_stream_it)
+  {
+    output_stream_it->second->start();
+  }
 }
 
 void LoggingManager::setLogLevel(icl_core::logging::LogLevel log_level)
-- 
2.43.0


From 9130c0901446e00e39dad9af0965df368d65cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 51/62] fix: FileLogOutput: gzip files are opened for
 appending, once

---
 .../src/icl_core_logging/FileLogOutput.cpp      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..81fd5a6 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,15 +208,18 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
     if (m_zipped_log_file == NULL)
     {
-      std::cerr << "Could not open log file " << m_filename << std::endl;
-    }
-    else
-    {
-      const char *buffer = "\n\n-------------FILE (RE-)OPENED------------------\n";
-      gzwrite(m_zipped_log_file, buffer, static_cast<unsigned int>(strlen(buffer)));
+      m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
+      if (m_zipped_log_file == NULL)
+      {
+        std::cerr << "Could not open log file " << m_filename << std::endl;
+      }
+      else
+      {
+        const char *buffer = "\n\n-------------FILE (RE-)OPENED------------------\n";
+        gzwrite(m_zipped_log_file, buffer, static_cast<unsigned int>(strlen(buffer)));
+      }
     }
   }
   else
-- 
2.43.0


From 9ada81f3c21dfca0ff79a956dd93913bbfd83c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 52/62] fix: FileLogOutput: keep the log file if it could not
 be compressed

---
 src/icl_core/src/icl_core/os_fs.cpp            | 18 +++++++++++++++++-
 .../src/icl_core_logging/FileLogOutput.cpp     |  7 +++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..24412f4 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -60,6 +60,17 @@ bool zipFile(const char *filename, const char *additional_extension)
       bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     }
   }
+  else
+  {
+    std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on opening." << std::endl;
+    ret = false;
+  }
+
+  if (bytes_read < 0)
+  {
+    std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
+    ret = false;
+  }
 
   if (unzipped_file != NULL)
   {
@@ -67,7 +78,12 @@ bool zipFile(const char *filename, const char *additional_extension)
   }
   if (zipped_file != NULL)
   {
-    gzclose(zipped_file);
+    // What is still buffered is written now.
+    if (gzclose(zipped_file) != Z_OK)
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on writing." << std::endl;
+      ret = false;
+    }
   }
 
   return ret;
diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 81fd5a6..fd49a61 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -255,8 +255,11 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        // Keep the file if its content could not be saved.
+        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
       }
       else
 #endif
-- 
2.43.0


From 8a72cdb7638842352ed2edc49fa99106ac98b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 53/62] fix: FileLogOutput: old files are found without a
 directory in the file name too

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index fd49a61..28da811 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -277,6 +277,10 @@ void FileLogOutput::rotateLogFile()
         boost::filesystem::path log_file_path = boost::filesystem::path(m_filename).parent_path();
         std::string log_file_name = boost::filesystem::path(m_filename).filename().string();
 #endif
+        if (log_file_path.empty())
+        {
+          log_file_path = ".";
+        }
         if (boost::filesystem::exists(log_file_path) && boost::filesystem::is_directory(log_file_path))
         {
           icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
-- 
2.43.0


From 429c039d1785e97686a2deb41359dfbda2e2c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:32 +0000
Subject: [PATCH 54/62] fix: PluginManager: files which cannot be opened are no
 plugins

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1e4c368..1521665 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -435,6 +435,18 @@ protected:
 
     PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
 
+#ifndef _WIN32
+    if (!plugin_handle)
+    {
+      const char* dlopen_error = dlerror();
+      std::ostringstream error;
+      error << "Cannot load plugin " << plugin << ": " << (dlopen_error ? dlopen_error : "unknown error");
+      addErrorMessage(error.str());
+      LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
+      return;
+    }
+#endif
+
     dlerror(); // Clear any previous errors.
     typename T::identifier* get_identifier
       = (typename T::identifier*) dlsym(plugin_handle, "identifier");
-- 
2.43.0


From fa02bbc91562fdc16dba548f06c55f9a7038ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:32 +0000
Subject: [PATCH 55/62] fix: PluginManager: asking for an unknown plugin does
 not register it

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1521665..23e380a 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -206,7 +206,8 @@ public:
       return m_static_plugins[identifier];
     }
 
-    return m_loaded_plugins[identifier];
+    typename std::map<std::string, T*>::const_iterator iter = m_loaded_plugins.find(identifier);
+    return iter != m_loaded_plugins.end() ? iter->second : NULL;
   }
 
   /*! Create a new plugin instance.
-- 
2.43.0


From 16e2dc28061c35465fa1fc72f47ba036ca6fca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:32 +0000
Subject: [PATCH 56/62] fix: PluginManager: creating an unknown plugin does not
 make it available

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 23e380a..02aa53f 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -225,7 +225,8 @@ public:
       loadPlugins();
     }
 
-    PluginHandle plugin_handle = m_plugin_handles[identifier];
+    typename std::map<std::string, PluginHandle>::const_iterator iter = m_plugin_handles.find(identifier);
+    PluginHandle plugin_handle = (iter != m_plugin_handles.end()) ? iter->second : NULL;
     return loadPluginInstance(plugin_handle, identifier);
   }
 
-- 
2.43.0


From 20f08f687bcf207f98243deded5ebbbb868878ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:32 +0000
Subject: [PATCH 57/62] fix: PluginManager: plugins which could not be
 instantiated are not listed

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 02aa53f..a6b3720 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -521,7 +521,11 @@ protected:
     {
       if (m_loaded_plugins.find(iter->first) == m_loaded_plugins.end())
       {
-        m_loaded_plugins[iter->first] = createPluginInstance(iter->first);
+        T* plugin_instance = createPluginInstance(iter->first);
+        if (plugin_instance)
+        {
+          m_loaded_plugins[iter->first] = plugin_instance;
+        }
       }
     }
 
-- 
2.43.0


From 3cfb439faa5915c15718c9b084c99c2a0f819155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:32 +0000
Subject: [PATCH 58/62] fix: PluginManager: no use of an erased identifier at
 destruction

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index a6b3720..9142992 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -64,7 +64,9 @@ public:
   {
     while (!m_plugin_handles.empty() && !m_loaded_plugins.empty())
     {
-      closePluginHandle(m_loaded_plugins.begin()->first);
+      // Copy the identifier, its map entry is going to be erased.
+      const std::string identifier = m_loaded_plugins.begin()->first;
+      closePluginHandle(identifier);
     }
 
     static PluginManager<T, plugin_dir>* m_instance;
-- 
2.43.0


From 47bc615695f6b5b318a065ea2e6b33d947af77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:32 +0000
Subject: [PATCH 59/62] fix: PerformanceMonitor: a summary without samples is
 possible

---
 .../icl_core_performance_monitor/PerformanceMonitor.cpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index b5069db..8dcf0e8 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -241,6 +241,13 @@ void PerformanceMonitor::print(string message, logging::LogLevel level)
 void PerformanceMonitor::createStatisticSummary(stringstream& ss, string prefix, string name)
 {
   string tmp = makeName(prefix, name);
+  if (m_data.find(tmp) == m_data.end())
+  {
+    // There are no figures without samples.
+    ss << "Summary for " << tmp << "\n" << "Called 0 times\n" << "\n";
+    return;
+  }
+
   double median, min, max;
   getMedian(tmp, median, min, max);
 
-- 
2.43.0


From bf9c1accd1a7d6007c9afae34a38243f6fbafe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:32 +0000
Subject: [PATCH 60/62] fix: PerformanceMonitor: enabling all prefixes does not
 override m_enabled

---
 .../src/icl_core_performance_monitor/PerformanceMonitor.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index 8dcf0e8..e156e49 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -77,7 +77,7 @@ void PerformanceMonitor::initialize(const uint32_t num_names, const uint32_t num
 
 bool PerformanceMonitor::isEnabled(string prefix)
 {
-  return (m_enabled && m_enabled_prefix.find(prefix) != m_enabled_prefix.end()) || m_all_enabled;
+  return m_enabled && (m_all_enabled || m_enabled_prefix.find(prefix) != m_enabled_prefix.end());
 }
 
 void PerformanceMonitor::start(string timer_name)
-- 
2.43.0


From 14012bcc03ef8e2a57c9a1a0a4b7522ef23e3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:53 +0000
Subject: [PATCH 61/62] fix: escape quotation marks and backslashes in UDP log
 messages

The replacement "\\'" is a format in which \' stands for ' itself, so that nothing was
escaped. A backslash must be escaped, too, as it would otherwise escape what follows it.
---
 src/icl_core/src/icl_core_logging/UdpLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..4a4f60e 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -124,7 +124,7 @@ icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
   // TODO: Which characters have to be escaped to ensure that a
   // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
+  str = boost::regex_replace(str, boost::regex("(['\\\\])"), "\\\\$1");
   //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
   return str;
 }
-- 
2.43.0


From ff5e2c8eef47a67c78585870561960828a668b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:53 +0000
Subject: [PATCH 62/62] fix: escape every text in UDP log messages

The names of the system, the stream, the file, the class and the function can
contain quotation marks and backslashes as well.
---
 src/icl_core/src/icl_core_logging/UdpLogOutput.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 4a4f60e..4bb5dcd 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -102,14 +102,14 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
   if (m_socket >= 0)
   {
     std::stringstream ss;
-    ss << "'" << m_system_name << "',"
+    ss << "'" << escape(m_system_name) << "',"
        << "'" << log_message.timestamp.formatIso8601() << "'," << log_message.timestamp.tsNSec() << ","
        << "'" << logLevelDescription(log_message.log_level) << "',"
-       << "'" << log_message.log_stream << "',"
-       << "'" << log_message.filename << "'," << log_message.line << ","
-       << "'" << log_message.class_name << "',"
+       << "'" << escape(log_message.log_stream) << "',"
+       << "'" << escape(log_message.filename) << "'," << log_message.line << ","
+       << "'" << escape(log_message.class_name) << "',"
        << "'" << escape(log_message.object_name) << "',"
-       << "'" << log_message.function_name << "',"
+       << "'" << escape(log_message.function_name) << "',"
        << "'" << escape(log_message.message_text) << "'";
     std::string str = ss.str();
     int res = write(m_socket, str.c_str(), str.length());
-- 
2.43.0

