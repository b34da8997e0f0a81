From 6592207e3eca9bda1af49c4c0c64a8a27975be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 01/89] fix: JobQueue::stop() must set the kill flag and notify
 under the lock

stop() wrote killWorkers_ without holding the mutex and did not notify, and
join() notified without holding it. A worker between its predicate test and its
wait missed both, so join() could block forever (and the flag was a data race).
---
 sm_boost/src/JobQueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..109e229 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -30,13 +30,14 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        boost::mutex::scoped_lock lck(mutex_);
         killWorkers_ = true;
+        condition_.notify_all(); // idle workers must see the flag
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
         work_->join_all();
     }
 
-- 
2.43.0


From 98ffe844beddec4503de1902ce81efba92e5c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 02/89] fix: JobQueue::join() on a queue that was never started

work_ is only created by start(); join() dereferenced the null pointer.
---
 sm_boost/src/JobQueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 109e229..4f0de79 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -38,7 +38,8 @@ namespace sm {
     void JobQueue::join()
     {
         stop();
-        work_->join_all();
+        if(work_) // there are no threads to wait for before start()
+            work_->join_all();
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 5485d30f2d55b57769e150af200b98d4a6abab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 03/89] fix: JobQueue destructor must wait for every thread it
 created

The destructor waited for threadsInPool_ to reach zero, but a worker is counted
only once it runs exec_loop(). Destroying a queue right after start() returned
while workers were still about to use the freed object.
---
 sm_boost/src/JobQueue.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 4f0de79..badbba1 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,9 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        // Wait for the threads themselves: threadsInPool_ does not count the
+        // ones that were created but have not entered exec_loop() yet.
+        join();
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
-- 
2.43.0


From 2889461e61195d4dfbd41ed2f6342deabab705bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 04/89] fix: lock order inversion between the named stream and
 the location mutex

enable/disableNamedStream() took _named_stream_mutex and then _locations_mutex;
registering a logging statement, setLevel() and the enabled check take them in
the opposite order. Configuring a stream while another thread logged for the
first time could block both threads forever.
---
 sm_logging/src/LoggingGlobals.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index a9ab08e..f9821c0 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -105,19 +105,24 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            _namedStreamsEnabled.insert(name);
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.insert(name);
+            }
+            // Not under _named_stream_mutex: this locks _locations_mutex, which
+            // other threads hold while they look up the enabled streams.
             notifyLoggerLevelsChanged();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
-            if(it != _namedStreamsEnabled.end())
             {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
+                if(it == _namedStreamsEnabled.end())
+                    return;
                 _namedStreamsEnabled.erase(it);
-                notifyLoggerLevelsChanged();
             }
+            notifyLoggerLevelsChanged(); // see enableNamedStream()
         }
 
 
-- 
2.43.0


From cadffb1c37b19e8ca2e009894a5b0912e74ce7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 05/89] fix: data races on the state every logging statement
 reads unlocked

A statement reads its location's _initialized, _loggerEnabled and _level without
the mutex under which other threads write them, and the global level is read and
written without any. A thread could see _initialized before the stream name.
---
 sm_logging/include/sm/logging/LogLocation.hpp    | 12 +++++++++---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LogLocation.hpp b/sm_logging/include/sm/logging/LogLocation.hpp
index 6ebb9f3..4552ea9 100644
--- a/sm_logging/include/sm/logging/LogLocation.hpp
+++ b/sm_logging/include/sm/logging/LogLocation.hpp
@@ -1,6 +1,11 @@
 #ifndef SM_LOGGING_LOG_LOCATION_HPP
 #define SM_LOGGING_LOG_LOCATION_HPP
 
+#include <atomic>
+#include <string>
+
+#include <sm/logging/Levels.hpp>
+
 namespace sm {
     namespace logging {
         struct LogLocation
@@ -8,9 +13,10 @@ namespace sm {
             LogLocation() : _initialized(false), _loggerEnabled(false),
                             _level(::sm::logging::levels::Count) {}
 
-            bool _initialized;
-            bool _loggerEnabled;
-            ::sm::logging::Level _level;
+            // Read by the logging statements without a lock.
+            std::atomic<bool> _initialized;
+            std::atomic<bool> _loggerEnabled;
+            std::atomic< ::sm::logging::Level> _level;
             std::string _streamName;
         };
 
diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index ea232f1..bbc8552 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -5,6 +5,7 @@
 #include <boost/thread/mutex.hpp>
 
 #include <stdarg.h>
+#include <atomic>
 #include <vector>
 #include <set>
 
@@ -87,11 +88,11 @@ namespace sm {
             void print(const char * streamName,  Level level, 
                        vectorstream & ss, const char* file, int line, const char* function);
 
-            Level _level;
+            std::atomic<Level> _level;
             
             boost::shared_ptr<Logger> _logger;
 
-            bool _shutting_down;
+            std::atomic<bool> _shutting_down;
 
             boost::mutex _init_mutex;
 
-- 
2.43.0


From 0fc0ffe7757011083b097813515e7313575c2110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 06/89] fix: data race on the id of the printing thread

print() compares it before taking the print mutex.
---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  3 ++-
 sm_logging/src/LoggingGlobals.cpp                | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index bbc8552..44a24e8 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -6,6 +6,7 @@
 
 #include <stdarg.h>
 #include <atomic>
+#include <thread>
 #include <vector>
 #include <set>
 
@@ -105,7 +106,7 @@ namespace sm {
             
             std::vector<char> _globalCharBuffer;
             boost::mutex _print_mutex;
-            boost::thread::id _printing_thread_id;
+            std::atomic<std::thread::id> _printing_thread_id;
 
 
         };
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index f9821c0..04b8199 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -172,7 +172,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -180,7 +180,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            _printing_thread_id = std::this_thread::get_id();
 
             va_list args;
             va_start(args, fmt);
@@ -199,7 +199,7 @@ namespace sm {
             }
                     
 
-            _printing_thread_id = boost::thread::id();
+            _printing_thread_id = std::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -208,7 +208,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -221,7 +221,7 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            _printing_thread_id = std::this_thread::get_id();
             try
             {
                 _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
@@ -231,7 +231,7 @@ namespace sm {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
                     
-            _printing_thread_id = boost::thread::id();
+            _printing_thread_id = std::thread::id();
         }
 
 
-- 
2.43.0


From 47e851de3069eda9eab445c4457abe62b9fa9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 07/89] fix: messages dropped after a logger throws a
 non-standard exception

Only std::exception is caught; anything else left print() without resetting the
printing thread id, so every later message of that thread was thrown away as
recursive.
---
 sm_logging/src/LoggingGlobals.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 04b8199..36bdce2 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -6,6 +6,15 @@ namespace sm {
 
         LoggingGlobals g_logging_globals;
 
+        namespace {
+            // Marks this thread as printing until the end of the scope.
+            struct PrintingThreadScope
+            {
+                explicit PrintingThreadScope(std::atomic<std::thread::id> & id) : _id(id) { _id = std::this_thread::get_id(); }
+                ~PrintingThreadScope() { _id = std::thread::id(); }
+                std::atomic<std::thread::id> & _id;
+            };
+        } // namespace
 
 
         LoggingGlobals::LoggingGlobals()
@@ -180,7 +189,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = std::this_thread::get_id();
+            PrintingThreadScope printing(_printing_thread_id);
 
             va_list args;
             va_start(args, fmt);
@@ -197,9 +206,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-
-            _printing_thread_id = std::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -221,7 +227,7 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = std::this_thread::get_id();
+            PrintingThreadScope printing(_printing_thread_id);
             try
             {
                 _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
@@ -230,8 +236,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-            _printing_thread_id = std::thread::id();
         }
 
 
-- 
2.43.0


From b76eaaee62838902972870b2b3a1e55add66cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 08/89] fix: replacing the logger while another thread logs

setLogger() wrote the shared pointer without any lock while print() and the
throttle macros used it, so the logger could be destroyed in the middle of a
message.
---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  1 +
 sm_logging/include/sm/logging/console.hpp        |  4 ++--
 sm_logging/src/LoggingGlobals.cpp                | 12 +++++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index 44a24e8..0d489f0 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -91,6 +91,7 @@ namespace sm {
 
             std::atomic<Level> _level;
             
+            boost::mutex _logger_mutex;
             boost::shared_ptr<Logger> _logger;
 
             std::atomic<bool> _shutting_down;
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index a3ee496..bea4285 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -177,7 +177,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
@@ -197,7 +197,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 36bdce2..fbda849 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -200,7 +200,8 @@ namespace sm {
 
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], _logger->currentTimeString() ) );
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -230,7 +231,8 @@ namespace sm {
             PrintingThreadScope printing(_printing_thread_id);
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -259,11 +261,15 @@ namespace sm {
         {
             if(logger.get())
             {
-                _logger = logger;
+                // The replaced logger is released after the lock.
+                boost::mutex::scoped_lock lock(_logger_mutex);
+                _logger.swap(logger);
+                lock.unlock();
             }
         }
         boost::shared_ptr<Logger> LoggingGlobals::getLogger()
         {
+            boost::mutex::scoped_lock lock(_logger_mutex);
             return _logger;
         }
 
-- 
2.43.0


From c38fb57b2a7d7a12835a7fcbd778039516345116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 09/89] fix: SM_*_ONCE printed more than once when threads hit
 it together

The flag was a plain bool tested and set separately.
---
 sm_logging/include/sm/logging/console.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index bea4285..5c2a6a3 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -36,6 +36,7 @@
 #include <sstream>
 
 #include <cstdarg>
+#include <atomic>
 #include <sm/logging/macros.h>
 #include <sm/logging/Levels.hpp>
 #include <sm/logging/LoggingGlobals.hpp>
@@ -139,10 +140,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
     } while(0)
@@ -157,10 +157,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);            \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
     } while(0)
-- 
2.43.0


From 80f786ba2bf0c20446559b39c2c24491e8e6413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 10/89] fix: SM_*_THROTTLE exceeded its rate when threads hit
 it together

The time of the last message was a plain double tested and set separately.
---
 sm_logging/include/sm/logging/console.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 5c2a6a3..23317c6 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -175,11 +175,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
+        double previous_hit = last_hit;                                 \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
     } while(0)
@@ -195,11 +195,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
+        double previous_hit = last_hit;                                 \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
     } while(0)
-- 
2.43.0


From ca6908a07a0cd0d69942ce543e52ce34caba2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 11/89] fix: a copied logging Formatter used the original's
 token map

---
 sm_logging/include/sm/logging/Formatter.hpp |  3 +++
 sm_logging/src/Formatter.cpp                | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/sm_logging/include/sm/logging/Formatter.hpp b/sm_logging/include/sm/logging/Formatter.hpp
index c6b82eb..18d6622 100644
--- a/sm_logging/include/sm/logging/Formatter.hpp
+++ b/sm_logging/include/sm/logging/Formatter.hpp
@@ -12,6 +12,9 @@ namespace sm {
         {
 
             Formatter();
+            // The tokens refer to their own formatter's extra_fixed_tokens_.
+            Formatter(const Formatter & other);
+            Formatter & operator=(const Formatter & other);
             virtual ~Formatter();
 
 
diff --git a/sm_logging/src/Formatter.cpp b/sm_logging/src/Formatter.cpp
index d90ec13..3f1fb8c 100644
--- a/sm_logging/src/Formatter.cpp
+++ b/sm_logging/src/Formatter.cpp
@@ -10,6 +10,23 @@
 namespace sm {
     namespace logging {
         
+        Formatter::Formatter(const Formatter & other) :
+            doColor_(other.doColor_), extra_fixed_tokens_(other.extra_fixed_tokens_)
+        {
+            init(other.format_.c_str());
+        }
+
+        Formatter & Formatter::operator=(const Formatter & other)
+        {
+            if (this != &other)
+            {
+                doColor_ = other.doColor_;
+                extra_fixed_tokens_ = other.extra_fixed_tokens_;
+                init(other.format_.c_str());
+            }
+            return *this;
+        }
+
         Formatter::~Formatter(){}
 
             TokenPtr Formatter::createTokenFromType(const std::string& type)
-- 
2.43.0


From ef59bf0b7e97f8288b1329b7f77099c73821580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 12/89] fix: SM_ASSERT_CMD negated only the first operand of
 its condition

---
 sm_logging/include/sm/logging/assert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_logging/include/sm/logging/assert.h b/sm_logging/include/sm/logging/assert.h
index 46c2c68..a4766d0 100644
--- a/sm_logging/include/sm/logging/assert.h
+++ b/sm_logging/include/sm/logging/assert.h
@@ -134,7 +134,7 @@
 
 #define SM_ASSERT_CMD(cond, cmd) \
   do { \
-    if (!cond) { \
+    if (!(cond)) { \
       cmd; \
     } \
   } while (0)
-- 
2.43.0


From 84ed22c9680329a6f1ccb0ff7c00ff892b69de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 13/89] fix: data races of Timing queries, prints and handle
 checks with running timers

The registry's mutex was only taken when tags, samples or resets were
written.  Every reader now takes it too (recursive, since queries by tag,
print and reset nest).
---
 sm_timing/include/sm/timing/Timer.hpp |  4 ++--
 sm_timing/src/Timer.cpp               | 23 ++++++++++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/sm_timing/include/sm/timing/Timer.hpp b/sm_timing/include/sm/timing/Timer.hpp
index 61790eb..43c36fd 100755
--- a/sm_timing/include/sm/timing/Timer.hpp
+++ b/sm_timing/include/sm/timing/Timer.hpp
@@ -14,7 +14,7 @@
 #endif
 
 namespace boost {
- class mutex;
+ class recursive_mutex;
 }
 
 namespace sm {
@@ -113,7 +113,7 @@ namespace timing {
 #endif
     size_t m_maxTagLength;
     
-    static boost::mutex m_mutex;
+    static boost::recursive_mutex m_mutex;
 
   }; // end class timer
   
diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6104584..8cb9cac 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -2,7 +2,7 @@
 #include <sm/assert_macros.hpp>
 #include <stdio.h>
 
-#include <boost/thread/mutex.hpp>
+#include <boost/thread/recursive_mutex.hpp>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics.hpp>
@@ -31,7 +31,7 @@ namespace timing {
 
 
 
-  boost::mutex Timing::m_mutex;
+  boost::recursive_mutex Timing::m_mutex;
   
   Timing & Timing::instance() {
     static Timing t;
@@ -56,7 +56,7 @@ namespace timing {
   // Static funcitons to query the timers:
   size_t Timing::getHandle(std::string const & tag){
     // Search for an existing tag.
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t::iterator i = instance().m_tagMap.find(tag);
     if(i == instance().m_tagMap.end()) {
       // If it is not there, create a tag.
@@ -76,6 +76,7 @@ namespace timing {
     std::string tag;
     bool found = false;
     
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     // Perform a linear search for the tag
     map_t::iterator i = instance().m_tagMap.begin();
     for( ; i != instance().m_tagMap.end(); i++) {
@@ -97,7 +98,10 @@ namespace timing {
     m_handle(handle)
     
   {
+    {
+    boost::recursive_mutex::scoped_lock lock(Timing::m_mutex);
     SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    }
     if(!constructStopped)
       start();
   }
@@ -149,11 +153,12 @@ namespace timing {
   
   
   void Timing::addTime(size_t handle, double seconds){
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     m_timers[handle].m_acc(seconds);
   }
   
   double Timing::getTotalSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::sum(instance().m_timers[handle].m_acc);
   }
@@ -161,6 +166,7 @@ namespace timing {
     return getTotalSeconds(getHandle(tag));
   }
   double Timing::getMeanSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::mean(instance().m_timers[handle].m_acc);
   }
@@ -168,6 +174,7 @@ namespace timing {
     return getMeanSeconds(getHandle(tag));
   }
   size_t Timing::getNumSamples(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle , instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::count(instance().m_timers[handle].m_acc);
   }
@@ -175,6 +182,7 @@ namespace timing {
     return getNumSamples(getHandle(tag));
   }
   double Timing::getVarianceSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::variance(instance().m_timers[handle].m_acc);
   }
@@ -182,6 +190,7 @@ namespace timing {
     return getVarianceSeconds(getHandle(tag));
   }
   double Timing::getMinSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::min(instance().m_timers[handle].m_acc);
   }
@@ -189,6 +198,7 @@ namespace timing {
     return getMinSeconds(getHandle(tag));
   }
   double Timing::getMaxSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::max(instance().m_timers[handle].m_acc);		
   }
@@ -198,6 +208,7 @@ namespace timing {
   
   double Timing::getHz(size_t handle)
   {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return 1.0/boost::accumulators::extract::rolling_mean(instance().m_timers[handle].m_acc);		
   }
@@ -208,7 +219,7 @@ namespace timing {
   }
 
   void Timing::reset(size_t handle) {
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     instance().m_timers[handle] = TimerMapValue();
   }
@@ -267,6 +278,7 @@ namespace timing {
   }
 
   void Timing::print(std::ostream & out) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     struct Accessor {
       size_t getIndex(map_t::const_iterator t) const {
         return t->second;
@@ -280,6 +292,7 @@ namespace timing {
   }
 
   void Timing::print(std::ostream & out, const SortType sort) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t & tagMap = instance().m_tagMap;
 
     typedef std::multimap<double, std::string, std::greater<double> > SortMap_t;
-- 
2.43.0


From c53772ab62305d26c5df0910779779213d042bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 14/89] fix: getInvalidTime() could not be called outside
 NsecTimeUtilities.cpp

A constexpr function is inline: it has to be defined in the header.
---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 4 ----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..fb231ce 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,10 +35,6 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
    return getInvalidTime() == time;
 }
-- 
2.43.0


From b8cfd3e21852dfb4e8b89d39ae9d1cb7f48c1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 15/89] fix: isValid() called the invalid time valid and every
 other time invalid

---
 sm_timing/src/NsecTimeUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index fb231ce..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -36,7 +36,7 @@ NsecTime secToNsec( const double & time ) {
 }
 
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From c8ace1fe85b36241cceb1101e0b6e2c8432aa408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 16/89] fix: timer variance could be negative and its deviation
 print as nan

lazy_variance subtracts the squared mean from the mean square, which
cancels; the iterative variance does not.
---
 sm_timing/src/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 8cb9cac..63eae1a 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -19,7 +19,7 @@ namespace timing {
     boost::accumulators::accumulator_set<
         double,
         boost::accumulators::features<
-          boost::accumulators::tag::lazy_variance,
+          boost::accumulators::tag::variance,
           boost::accumulators::tag::sum,
           boost::accumulators::tag::min,
           boost::accumulators::tag::max,
-- 
2.43.0


From 1eb329fc8dd1db17eb678c6019c8708f149d2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 17/89] fix: a timer running across a daylight saving change
 was off by an hour

---
 sm_timing/src/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 63eae1a..3cfe57c 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -125,7 +125,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     QueryPerformanceCounter(&m_time);
 #else
-    m_time = boost::posix_time::microsec_clock::local_time();
+    m_time = boost::posix_time::microsec_clock::universal_time();
 #endif
   }
   
@@ -138,7 +138,7 @@ namespace timing {
     QueryPerformanceCounter(&end);
     dt = (double)(end.QuadPart - m_time.QuadPart)*Timing::instance().m_clockPeriod;	
 #else
-    boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
+    boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
     boost::posix_time::time_duration t = now - m_time;
     dt = ((double)t.total_nanoseconds() * 1e-9);
 #endif
-- 
2.43.0


From 709769360a81c2c274a89a01646ba1583c0a186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 18/89] fix: secondsToTimeString printed 60.000000 seconds for
 59.9999996

---
 sm_timing/src/Timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 3cfe57c..d95615c 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -231,6 +231,8 @@ namespace timing {
 
   std::string Timing::secondsToTimeString(double seconds) {
     
+    // Round to the printed resolution first, so that the seconds stay below 60.
+    seconds = round(seconds*1e6)/1e6;
     double secs = fmod(seconds,60);
     int minutes = (long)(seconds/60);
     int hours = (long)(seconds/3600);
-- 
2.43.0


From 1deff2c3a4604b09f408f07aceb508dd8bbcc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 19/89] fix: TimestampCorrector kept the index of a segment
 that left the hull

When a late point reduced the hull to two points, getLocalTime, getSlope
and getOffset read behind its end.
---
 .../include/sm/timing/implementation/TimestampCorrector.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..dc20202 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -52,6 +52,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
   }
   else {
     // and if there aren't enough data points, just return the sampled local time.
+    // (the hull may just have shrunk to a single segment)
+    _midpointSegmentIndex = 0u;
     return localTime;
   }
 
-- 
2.43.0


From 3d6923a8ee85d4ac920d0c395a57827656c52baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 20/89] fix: TimestampCorrector overflowed with integer
 nanosecond times

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index dc20202..2310179 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -162,9 +162,11 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   const Point v1 = l2 - l1;
   const Point v2 = p - l1;
 
-  const T determinant = v1.x * v2.y - v1.y * v2.x;
+  // In double: the products of integer nanoseconds overflow after seconds.
+  const double determinant = static_cast<double>(v1.x) * static_cast<double>(v2.y)
+      - static_cast<double>(v1.y) * static_cast<double>(v2.x);
 
-  return determinant >= static_cast<T>(0.0);
+  return determinant >= 0.0;
 }
 
 } // namespace timing
-- 
2.43.0


From 55566c691fbae1f83b0c2086aac15c16cd1e92c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 21/89] fix: TimestampCorrector lost integer nanoseconds in
 double arithmetic

At epoch times a double resolves 256 ns: the midpoint could fall outside
the hull and the estimated local time was off by as much.
---
 .../include/sm/timing/implementation/TimestampCorrector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 2310179..03ff082 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -34,7 +34,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
 
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3u) {
-    T midpoint = static_cast<T>((_convexHull[0u].x + remoteTime) / 2.0);
+    T midpoint = _convexHull[0u].x + (remoteTime - _convexHull[0u].x) / 2;
 
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(),
                                                              _convexHull.end(), midpoint);
@@ -141,8 +141,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::getLocalTime(
 
   // Look up the local timestamp.
   const double helper = static_cast<double>(l2.y - l1.y) / static_cast<double>(l2.x - l1.x);
-  const time_t local_time = static_cast<time_t>(
-          static_cast<double>(l1.y) + helper * static_cast<double>(remoteTime - l1.x));
+  const time_t local_time = l1.y + static_cast<time_t>(
+          helper * static_cast<double>(remoteTime - l1.x));
   return local_time;
 }
 
-- 
2.43.0


From f47834377ccf961dfe768e0a6283cdbf669c6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 22/89] fix: MatrixArchive::clear(name) did not remove strings

---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..70e8a12 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 5167c7b31f8d9ceac43e17a57829e920274ac7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 23/89] fix: MatrixArchive::append() wrote nothing

---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 70e8a12..2a0c939 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -436,10 +436,12 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 50a342b15f820d49be92119e3b4652c312be5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 24/89] fix: MatrixArchive did not notice that buffered data
 could not be written

---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2a0c939..5f7f6c2 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -366,6 +366,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing to file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
@@ -442,6 +443,9 @@ namespace sm
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
 
     save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing to file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 537aecd9fe4e5eb84b45b8fde476bdb3183888bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 25/89] fix: a MatrixArchive name could hold a matrix and a
 string, or be invalid

setMatrix and setString replace whatever the name held; setVector,
setScalar, createMatrix and load now do so too, and createMatrix checks
the name as the other setters do (saving failed half way otherwise).
---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 1 +
 sm_matrix_archive/src/MatrixArchive.cpp        | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..b3c2162 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 5f7f6c2..b612447 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -38,6 +38,7 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -73,6 +74,8 @@ namespace sm
       }
     }
 
+    validateName(matrixName, SM_SOURCE_FILE_POS);
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
     return val;
@@ -425,9 +428,11 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
+            m_strings.erase(name);
             m_values[name] = matrix;
             break;
           case STRING:
+            m_values.erase(name);
             m_strings[name] = valueString;
             break;
         }
-- 
2.43.0


From e7ba46f81e1af878c164a167eb5d6c228cfdc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 26/89] fix: MatrixArchive wrote no or partial data of matrices
 of 4 GB and more

---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index b612447..306aced 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -221,7 +221,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = matrix.size() * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
-- 
2.43.0


From 3a6510da7e9f2af53840452e585970faa831a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 27/89] fix: MatrixArchive::load() accepted truncated and
 damaged files

No read was checked: a file ending within a block was accepted with
whatever the memory held, and a damaged size could crash the program
(a failing resize leaves an Eigen matrix with a freed pointer).
---
 sm_matrix_archive/src/MatrixArchive.cpp | 33 ++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 306aced..d3e83ee 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -1,5 +1,7 @@
 #include <fstream>
 #include <cstdio>
+#include <algorithm>
+#include <vector>
 #include <boost/algorithm/string/trim.hpp>
 #include <sm/MatrixArchive.hpp>
 
@@ -235,6 +237,24 @@ namespace sm
     SM_THROW(MatrixArchiveException, "Not Implemented");
   }
   
+  // Reads count elements.  The buffer grows with the data that is really there,
+  // because the size in a damaged file may be anything.
+  template<typename Buffer>
+  static void readData(std::istream & fin, Buffer & data, boost::uint64_t count)
+  {
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ends within a block");
+    data.clear();
+    while(count > 0)
+    {
+      const size_t n = std::min<boost::uint64_t>(count, 65536);
+      const size_t offset = data.size();
+      data.resize(offset + n);
+      fin.read(reinterpret_cast<char *>(&data[offset]), n * sizeof(data[0]));
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ends within a block");
+      count -= n;
+    }
+  }
+
   void MatrixArchive::readMatrix(std::istream & fin, Eigen::MatrixXd & matrix) const
   {
     // 4 byte rows
@@ -245,11 +265,10 @@ namespace sm
     fin.read(reinterpret_cast<char *>(&cols),4);
     
     // data
-
+    std::vector<double> data;
+    readData(fin, data, boost::uint64_t(rows) * cols);
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
-    //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
-    fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    std::copy(data.begin(), data.end(), matrix.data());
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -276,8 +295,7 @@ namespace sm
     fin.read(reinterpret_cast<char *>(&stringSize),4);
 
     // data
-    stringValue.resize(stringSize);
-    fin.read(&stringValue[0], stringSize);
+    readData(fin, stringValue, stringSize);
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
@@ -285,6 +303,7 @@ namespace sm
     char start, end;
     // start character
     fin.read(&start,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading from the file");
     BlockType blockType;
     if(start == s_magicCharStartAStringBlock){
       blockType = STRING;
@@ -298,6 +317,7 @@ namespace sm
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
     fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ends within a block");
     name = nameBuffer;
     boost::trim(name);
 
@@ -312,6 +332,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ends within a block");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 9e2de5874cdb8ac30253201ea98b6ec93505d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 28/89] fix: getChildren() could not find nodes whose key
 contains a '.'

The path was translated to boost's default separator '.', so that "/b.c" was
looked up as c below b. All other accessors use '/' as the separator.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..fbeef5d 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -268,8 +268,7 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(boost::property_tree::ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From 41820265e89cc7f8d971cc9320d1ab6e69df0d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 29/89] fix: update() split keys containing a '.' into nested
 keys

The paths of the values to merge were built with boost's default separator,
so that "x.y" became y below x, and updating an existing "x.y" without
creation reported it as missing.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index fbeef5d..5c0d625 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -288,7 +288,7 @@ namespace sm {
 
     method(childPath, child);
     for(ptree::const_iterator it=child.begin();it!=child.end();++it) {
-      ptree::path_type curPath = childPath / ptree::path_type(it->first);
+      ptree::path_type curPath = childPath / ptree::path_type(it->first, '/');
       traverse_recursive(curPath, it->second, method);
     }
   }
@@ -308,7 +308,7 @@ namespace sm {
   template<typename T>
   void traverse(const boost::property_tree::ptree &parent, T method)
   {
-    traverse_recursive("", parent, method);
+    traverse_recursive(boost::property_tree::ptree::path_type("", '/'), parent, method);
   }
 
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
-- 
2.43.0


From 44252ac2e901ca53ee5a2b89141fc9a72747846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 30/89] fix: saving a property tree reported success when the
 disk was full

The writers of boost::property_tree check the stream before its buffer is
flushed, and the destructor of the file stream ignores errors, so that small
xml, ini and info files could be empty or incomplete without any error.
---
 .../src/BoostPropertyTreeImplementation.cpp   | 50 ++++++++++++++-----
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 5c0d625..0bc42ba 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -1,6 +1,7 @@
 #include <sm/BoostPropertyTree.hpp>
 #include <sm/BoostPropertyTreeImplementation.hpp>
 
+#include <fstream>
 #include <sstream>
 #include <boost/make_shared.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -13,6 +14,24 @@ using boost::property_tree::json_parser::read_json;
 
 namespace sm {
 
+  namespace {
+    // Write a file and make sure that everything arrived there: the writers of boost only check the
+    // stream before its buffer is written to the file.
+    template <typename Error, typename Writer>
+    void writeFile(const boost::filesystem::path & fileName, Writer writer)
+    {
+      std::ofstream stream(fileName.string().c_str());
+      if(!stream){
+        throw Error("cannot open file", fileName.string(), 0);
+      }
+      writer(stream);
+      stream.close();
+      if(!stream){
+        throw Error("write error", fileName.string(), 0);
+      }
+    }
+  }
+
   BoostPropertyTreeImplementation::BoostPropertyTreeImplementation()
   {
 
@@ -105,7 +124,9 @@ namespace sm {
   }
 
   void BoostPropertyTreeImplementation::saveJson(const boost::filesystem::path& fileName) const {
-    boost::property_tree::write_json(fileName.string(), _ptree);
+    writeFile<boost::property_tree::json_parser_error>(fileName, [this](std::ostream & stream){
+      boost::property_tree::write_json(stream, _ptree);
+    });
   }
 
 
@@ -123,18 +144,19 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveXml(const boost::filesystem::path & fileName) const
   {
-    if(BoostPropertyTree::isHumanReadableInputOutput()){
+    writeFile<boost::property_tree::xml_parser_error>(fileName, [this](std::ostream & stream){
+      if(BoostPropertyTree::isHumanReadableInputOutput()){
 #if BOOST_VERSION >= 105600
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(),
-                                      boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
+        boost::property_tree::write_xml(stream, _ptree, boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
 #else
-      boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(), settings);
+        boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
+        boost::property_tree::write_xml(stream, _ptree, settings);
 #endif
-    }
-    else {
-      boost::property_tree::write_xml(fileName.string(), _ptree);
-    }
+      }
+      else {
+        boost::property_tree::write_xml(stream, _ptree);
+      }
+    });
   }
 
   void BoostPropertyTreeImplementation::loadIni(const boost::filesystem::path & fileName)
@@ -144,7 +166,9 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveIni(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_ini(fileName.string(), _ptree);
+    writeFile<boost::property_tree::ini_parser_error>(fileName, [this](std::ostream & stream){
+      boost::property_tree::write_ini(stream, _ptree);
+    });
   }
 
 
@@ -155,7 +179,9 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveInfo(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_info(fileName.string(), _ptree);
+    writeFile<boost::property_tree::info_parser_error>(fileName, [this](std::ostream & stream){
+      boost::property_tree::write_info(stream, _ptree);
+    });
   }
 
   std::string BoostPropertyTreeImplementation::asInfoString() const {
-- 
2.43.0


From 6a1218d9f7bcd888a763b2fc682cc2bfd9fda06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 31/89] fix: BoostPropertyTreeLoader ignored an overridden
 fileExists() in its search paths

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index a6128f6..61841c7 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -135,7 +135,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
   for( auto & bp : getSearchPaths()){
     for(auto & infix : getFileNameInfixes()){
       candidate = bp + "/" + (infix.empty() ? "" : infix + "/") + path;
-      if(boost::filesystem::exists(candidate)){
+      if(fileExists(candidate)){
         return candidate;
       }
     }
-- 
2.43.0


From 6cfd84ff77759e686213c527591cf2c05bcaee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 32/89] fix: './' names relative to a file without directory
 were looked up in '/'

The directory part of such a file is empty, and empty + '/' + name is absolute.
---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index 61841c7..8b4840a 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -120,8 +120,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
     if (relativeToFile.empty() && fileExists(path)) {
       return path;
     } else {
-      std::string dir = boost::filesystem::path(relativeToFile).remove_filename().string();
-      std::string candidate = dir + '/' + path;
+      std::string candidate = (boost::filesystem::path(relativeToFile).remove_filename() / path).string();
       if (fileExists(candidate)) {
         return candidate;
       }
-- 
2.43.0


From 3b96d772fbbb71daac8155c929581037ae8dc968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 33/89] fix: configuration files were told apart by the names
 they were referred by

A file was skipped if another one had been loaded by the same relative name
(./parent.info in two directories), and a file referred by several names was
merged several times; a file that is its own parent by a longer and longer
name was loaded until the stack overflowed.
---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index 8b4840a..f3a28f8 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -48,6 +48,9 @@ class UpdateablePropertyTree {
     std::string configFileFullPath = ptl.resolveFullFilePath(configFile, relativeToFile);
     ptl.verbose("Resolved '" + configFile + "' to '" + configFileFullPath + "'.");
 
+    // The same file can have several names, and the same (relative) name can denote several files.
+    if(!ignore.insert(boost::filesystem::weakly_canonical(configFileFullPath).string() + (updateOnly ? "!" : "")).second) return;
+
     sm::BoostPropertyTree pt;
     pt.load(configFileFullPath);
 
@@ -69,9 +72,6 @@ class UpdateablePropertyTree {
   void readFiles(const std::vector<std::string> & configFiles, std::set<std::string> & ignore, const std::string & relativeToFile) {
     for(auto configFile : configFiles) {
       if(configFile.empty()) continue;
-      if(ignore.count(configFile)) continue;
-      ignore.insert(configFile);
-
       loadConfigFileWithParents(configFile, ignore, relativeToFile);
     }
   }
-- 
2.43.0


From c4c259eda413b7c56ef353dab9c290dac29fee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 34/89] fix: PrefixedValueStore in ADD mode used an
 uninitialised flag

hasKey() could report existing keys as missing and getChild() could return an
empty store.
---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From 1fa915b7173cf45c1393d7bdbdc41399d5158bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 35/89] fix: children of a PrefixedValueStore in REMOVE mode
 had the wrong content

The child below the prefix removed the rest of the key from its paths instead of
adding it, and the child of a part of the prefix was empty. The value of the
prefix itself was reported by hasKey() but could not be read.
---
 sm_value_store/src/PrefixedValueStore.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 4a49d90..5fabd9c 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -29,14 +29,14 @@ bool PrefixedValueStore::hasKey(const std::string& path) const {
 KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
   bool isPossible;
   auto && prefixedKey = applyPrefix(key, &isPossible);
-  if(isPossible){
-    if(PrefixMode::REMOVE == mode_ && (prefixedKey.empty() || prefixedKey == "/")){
+  if(PrefixMode::REMOVE == mode_){
+    if(isPossible && (prefixedKey.empty() || prefixedKey == "/")){
       return KeyValueStorePair(key, vs_);
     }
-    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefixedKey));
-  } else {
-    return KeyValueStorePair(key, ValueStoreRef());
+    // The key can be below the prefix, a part of it or unrelated: look up key/path here.
+    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(std::make_shared<PrefixedValueStore>(*this), PrefixMode::ADD, key));
   }
+  return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefixedKey));
 }
 std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
   SM_THROW(std::runtime_error, "Not implemented, yet");
@@ -57,7 +57,9 @@ std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPos
         return path.substr(prefix_.size());
       } else {
         if(isPossiblePtr) {
-          *isPossiblePtr = path.size() == prefix_.size() - 1 && path + "/" == prefix_;
+          *isPossiblePtr = path + "/" == prefix_;
+          return std::string();
+        } else if(path + "/" == prefix_) {
           return std::string();
         } else {
           SM_THROW(std::runtime_error, "path does not contain the prefix (" << prefix_ << "): " << path);
-- 
2.43.0


From ae3129b31e98a885ec441789e6a1473a60292c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 36/89] fix: PrefixedValueStore in REMOVE mode threw instead of
 giving the default

A path without the prefix does not exist (hasKey() is false), so that a given
default applies; as the last layer of a LayeredValueStore it made every get
with default of a key that is nowhere throw.
---
 .../sm/value_store/PrefixedValueStore.hpp      |  2 ++
 sm_value_store/src/PrefixedValueStore.cpp      | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
index 3fac0b8..b09ac75 100644
--- a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
+++ b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
@@ -26,6 +26,8 @@ class PrefixedValueStore : public ValueStore {
   std::vector<KeyValueStorePair> getChildren() const override;
   bool isChildSupported() const override;
  private:
+  template <typename T>
+  ValueHandle<T> get(const std::string & path, boost::optional<T> def, ValueHandle<T> (ValueStore::*getter)(const std::string &, boost::optional<T>) const) const;
   std::string applyPrefix(const std::string & path, bool* isPossiblePtr = nullptr) const;
   ValueStore::SharedPtr vs_;
   std::string prefix_;
diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 5fabd9c..f5239ca 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -8,17 +8,27 @@
 namespace sm {
 namespace value_store {
 
+template <typename T>
+ValueHandle<T> PrefixedValueStore::get(const std::string & path, boost::optional<T> def, ValueHandle<T> (ValueStore::*getter)(const std::string &, boost::optional<T>) const) const {
+  if(def){
+    bool isPossible;
+    auto && prefixedPath = applyPrefix(path, &isPossible);
+    return isPossible ? ((*vs_).*getter)(prefixedPath, def) : ValueHandle<T>(*def);
+  }
+  return ((*vs_).*getter)(applyPrefix(path), def);
+}
+
 ValueHandle<bool> PrefixedValueStore::getBool(const std::string & path, boost::optional<bool> def) const {
-  return vs_->getBool(applyPrefix(path), def);
+  return get<bool>(path, def, &ValueStore::getBool);
 }
 ValueHandle<int> PrefixedValueStore::getInt(const std::string & path, boost::optional<int> def) const {
-  return vs_->getInt(applyPrefix(path), def);
+  return get<int>(path, def, &ValueStore::getInt);
 }
 ValueHandle<double> PrefixedValueStore::getDouble(const std::string & path, boost::optional<double> def) const {
-  return vs_->getDouble(applyPrefix(path), def);
+  return get<double>(path, def, &ValueStore::getDouble);
 }
 ValueHandle<std::string> PrefixedValueStore::getString(const std::string & path, boost::optional<std::string> def) const {
-  return vs_->getString(applyPrefix(path), def);
+  return get<std::string>(path, def, &ValueStore::getString);
 }
 bool PrefixedValueStore::hasKey(const std::string& path) const {
   bool isPossible;
-- 
2.43.0


From 9f881b3e39ba81934e664ca01cfa47afaa8d680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 37/89] fix: a LayeredValueStore without layers made up values

get() returned a default constructed value instead of the given default, and
instead of throwing if there is none.
---
 sm_value_store/src/ValueStore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..41e6d0d 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -59,7 +59,10 @@ ValueHandle<V> LayeredValueStore::getFromLayers(const std::string & path, boost:
      return ((&(*vs))->*Func)(path, def);
    }
  }
- return V(); // dummy, will never happen
+ if(def){
+   return *def;
+ }
+ SM_THROW(std::runtime_error, "There is no value for " << path << ", because there are no layers.");
 }
 
 bool LayeredValueStore::isChildSupported() const {
-- 
2.43.0


From 4b455ebb5b9f2aced226b946d41b876010419f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 38/89] fix: getChildren() of a child that only one layer has
 threw

A LayeredValueStore asks all of its layers for the children, and those without
the node threw a ptree_bad_path. A node that does not exist has no children.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 0bc42ba..864e26e 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -294,7 +294,11 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      pt = & _ptree.get_child(boost::property_tree::ptree::path_type(k, '/'));
+      auto child = _ptree.get_child_optional(boost::property_tree::ptree::path_type(k, '/'));
+      if(!child){
+        return ret;
+      }
+      pt = & *child;
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From b70e207cf3080d83eb5d70438c7a47270e1ef460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 39/89] fix: alert arguments were tried as paths

The entry after an alternative marked with '!' is documented to be an argument
for the alert handler and not a path candidate, but it was tried as a path if
the marked alternative did not exist.
---
 sm_value_store/src/ValueStore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index 41e6d0d..f87e575 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -144,6 +144,7 @@ std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pat
         }
         return pp;
       }
+      i++; // the next entry is the argument for the alert and not a path candidate
     } else if (hasKey(p)) {
       return p;
     }
-- 
2.43.0


From 69e08bb00fc3c93d1582c84fefd093ae8536fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 40/89] fix: SM_CHECKSAME && SM_CHECKSAME ignored the second
 check

The macros expanded to an unparenthesised conditional expression, so that a
further check chained with && became part of its last operand and was never
evaluated when the first one succeeded: Transformation::isBinaryEqual() ignored
the translation.  The form with three arguments had unbalanced parentheses.
---
 sm_common/include/sm/serialization_macros.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..aa1e56d 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -320,11 +320,11 @@ struct VerboseChecker {
     SET_CHECKSAME_VERBOSITY(false)
 
 #define SM_SERIALIZATION_CHECKSAME_VERBOSE(THIS, OTHER, VERBOSE) \
-    SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
+    (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
+    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER))
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 5169c75b78fdef8ef674b1b2e0c05320b50a4be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 41/89] fix: HashId::fromHexString() took or threw on strings
 that are not hexadecimal

---
 sm_common/include/sm/hash_id.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..8aa2d2d 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <random>
 #include <mutex>
+#include <string>
 
 namespace sm {
 
@@ -77,9 +78,12 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
-          stoul(std::string(hexString, 2*i, 2), 0, 16));
+          std::stoul(std::string(hexString, 2*i, 2), 0, 16));
     }
     return true;
   }
-- 
2.43.0


From 8964b3f36a26639c33564a40e041d25b00523771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 42/89] fix: replace() did not end if the replacement is the
 target

replace_reverse() also replaced a character at the start that was to be skipped.
---
 sm_common/include/sm/string_routines.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_common/include/sm/string_routines.hpp b/sm_common/include/sm/string_routines.hpp
index ef65196..1763db7 100755
--- a/sm_common/include/sm/string_routines.hpp
+++ b/sm_common/include/sm/string_routines.hpp
@@ -17,10 +17,10 @@ namespace sm
             if(skip)
             {
                 skip--;
-                pos++;
             }
             else
                 str[pos] = replacement;
+            pos++;
         }
         return str;
     }
@@ -35,10 +35,12 @@ namespace sm
             if(skip)
             {
                 skip--;
-                pos--;
             }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From 0bedb39aef319bb19c39ab1bee31b2a248ff739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 43/89] fix: solveQuadratic() returned NaN for a x^2 = 0

---
 sm_common/include/sm/maths.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm_common/include/sm/maths.hpp b/sm_common/include/sm/maths.hpp
index 9eea956..f1ddfcd 100755
--- a/sm_common/include/sm/maths.hpp
+++ b/sm_common/include/sm/maths.hpp
@@ -34,6 +34,12 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    if(n == 0.0)
+      {
+        // b and c are zero: x = 0 is a double root.
+        return std::make_pair(0.0, 0.0);
+      }
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From ba08b286599c95805d5e9daf27a694a9a241c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 44/89] fix: round() was wrong where adding 0.5 rounds, lrint()
 cut to int

---
 sm_common/include/sm/round.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 6e8860e..abcaad3 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -1,16 +1,18 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        return std::round(number);
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
@@ -25,7 +27,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From 6a4402f01091264e0e8b922e849ce7f8d0a18dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 45/89] fix: the range assertions accepted NaN

A comparison with NaN is always false, hence assert(value < bound) must be
tested as !(value < bound), as SM_ASSERT_NEAR does, and not as value >= bound.
---
 sm_common/include/sm/assert_macros.hpp | 44 +++++++++++++-------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index 8453af2..4a14642 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -103,7 +103,7 @@ namespace sm {
 
 
 #define SM_ASSERT_GE_LT(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) >= (upperBound))							\
+  if(!((value) >= (lowerBound) && (value) < (upperBound)))							\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #lowerBound << " <= " << #value << " < " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " < " << (upperBound) << "]: " << message; \
@@ -111,7 +111,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_LE(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) <= (lowerBound) || (value) > (upperBound))             \
+  if(!((value) > (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #lowerBound << " < " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " < " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -119,7 +119,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE_LE(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) > (upperBound))             \
+  if(!((value) >= (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #lowerBound << " <= " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -127,7 +127,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_LT(exceptionType, value, upperBound, message)			\
-  if((value) >= (upperBound))												\
+  if(!((value) < (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " < " << #upperBound << ") failed [" << (value) << " < " << (upperBound) << "]: " <<  message; \
@@ -135,7 +135,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE(exceptionType, value, lowerBound, message)			\
-  if((value) < (lowerBound))												\
+  if(!((value) >= (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " >= " << #lowerBound << ") failed [" << (value) << " >= " << (lowerBound) << "]: " <<  message; \
@@ -145,7 +145,7 @@ namespace sm {
 
 
 #define SM_ASSERT_LE(exceptionType, value, upperBound, message)			\
-  if((value) > (upperBound))												\
+  if(!((value) <= (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " <= " << #upperBound << ") failed [" << (value) << " <= " << (upperBound) << "]: " <<  message; \
@@ -153,7 +153,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT(exceptionType, value, lowerBound, message)			\
-  if((value) <= (lowerBound))												\
+  if(!((value) > (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " > " << #lowerBound << ") failed [" << (value) << " > " << (lowerBound) << "]: " <<  message; \
@@ -161,7 +161,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_POSITIVE(exceptionType, value, message)     \
-  if((value) <= 0.0)                       \
+  if(!((value) > 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " > 0.0) failed [" << (value) << " > 0.0]: " <<  message; \
@@ -169,7 +169,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONNEGATIVE(exceptionType, value, message)     \
-  if((value) < 0.0)                       \
+  if(!((value) >= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -177,7 +177,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NEGATIVE(exceptionType, value, message)     \
-  if((value) >= 0.0)                       \
+  if(!((value) < 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " < 0.0) failed [" << (value) << " < 0.0]: " <<  message; \
@@ -185,7 +185,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONPOSITIVE(exceptionType, value, message)     \
-  if((value) > 0.0)                       \
+  if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -290,7 +290,7 @@ namespace sm {
 #define SM_ASSERT_DBG_RE( condition, message) SM_ASSERT_DBG(std::runtime_error, condition, message)
 
 #define SM_ASSERT_GE_LT_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) >= (upperBound))							\
+  if(!((value) >= (lowerBound) && (value) < (upperBound)))							\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #lowerBound << " <= " << #value << " < " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " < " << (upperBound) << "]: " << message; \
@@ -298,7 +298,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_LE_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) <= (lowerBound) || (value) > (upperBound))             \
+  if(!((value) > (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #lowerBound << " < " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " < " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -306,7 +306,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE_LE_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) > (upperBound))             \
+  if(!((value) >= (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #lowerBound << " <= " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -314,7 +314,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_POSITIVE_DBG(exceptionType, value, message)     \
-  if((value) <= 0.0)                       \
+  if(!((value) > 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " > 0.0) failed [" << (value) << " > 0.0]: " <<  message; \
@@ -322,7 +322,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONNEGATIVE_DBG(exceptionType, value, message)     \
-  if((value) < 0.0)                       \
+  if(!((value) >= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -330,7 +330,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NEGATIVE_DBG(exceptionType, value, message)     \
-  if((value) >= 0.0)                       \
+  if(!((value) < 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " < 0.0) failed [" << (value) << " < 0.0]: " <<  message; \
@@ -338,7 +338,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONPOSITIVE_DBG(exceptionType, value, message)     \
-  if((value) > 0.0)                       \
+  if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -362,7 +362,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_LT_DBG(exceptionType, value, upperBound, message)		\
-  if((value) >= (upperBound))												\
+  if(!((value) < (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " < " << #upperBound << ") failed [" << (value) << " < " << (upperBound) << "]: " <<  message; \
@@ -372,7 +372,7 @@ namespace sm {
 
 
 #define SM_ASSERT_GE_DBG(exceptionType, value, lowerBound, message)		\
-  if((value) < (lowerBound))												\
+  if(!((value) >= (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " >= " << #lowerBound << ") failed [" << (value) << " >= " << (lowerBound) << "]: " <<  message; \
@@ -382,7 +382,7 @@ namespace sm {
 
 
 #define SM_ASSERT_LE_DBG(exceptionType, value, upperBound, message)		\
-  if((value) > (upperBound))												\
+  if(!((value) <= (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " <= " << #upperBound << ") failed [" << (value) << " <= " << (upperBound) << "]: " <<  message; \
@@ -390,7 +390,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_DBG(exceptionType, value, lowerBound, message)		\
-  if((value) <= (lowerBound))												\
+  if(!((value) > (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " > " << #lowerBound << ") failed [" << (value) << " > " << (lowerBound) << "]: " <<  message; \
-- 
2.43.0


From 2c5d9bb8d1df99b0889216b6ddce439e66f2ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 46/89] fix: SM_ASSERT_NONPOSITIVE reported the opposite
 relation

SM_ASSERT_NULL and SM_ASSERT_NOTNULL compared only the last part of a
conditional expression.
---
 sm_common/include/sm/assert_macros.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index 4a14642..607dbd0 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -188,7 +188,7 @@ namespace sm {
   if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
-      sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
+      sm_assert_stringstream << "assert(" << #value << " <= 0.0) failed [" << (value) << " <= 0.0]: " <<  message; \
       sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
     }
 
@@ -201,7 +201,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NOTNULL(exceptionType, value, message)     \
-  if(value == nullptr)                       \
+  if((value) == nullptr)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " != NULL) failed: " <<  message; \
@@ -209,7 +209,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NULL(exceptionType, value, message)     \
-  if(value != nullptr)                       \
+  if((value) != nullptr)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " == NULL) failed: " <<  message; \
@@ -341,7 +341,7 @@ namespace sm {
   if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
-      sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
+      sm_assert_stringstream << "debug assert(" << #value << " <= 0.0) failed [" << (value) << " <= 0.0]: " <<  message; \
       sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
     }
 
-- 
2.43.0


From 8c0df8107474de44a054d4003ff8848d76734448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 47/89] fix: randLU() could return the excluded upper bound

---
 sm_random/src/random.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 6b9a5d2..b534fbf 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -77,7 +77,12 @@ double rand()
 
 double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 {
-  return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  double r;
+  do {
+    r = Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+    // The result may be rounded up to the upper bound.
+  } while(r >= upperBoundExclusive && lowerBoundInclusive < upperBoundExclusive);
+  return r;
 }
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
-- 
2.43.0


From b6ecfa5bd0fd0fa32e83f480a598d1256e439e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 48/89] fix: randLUi() overflowed for ranges wider than an int

---
 sm_random/src/random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index b534fbf..3b1bfa8 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -87,7 +87,7 @@ double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From 937f18241f37a874e112cac8d441967631e81452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 49/89] fix: ptimeToTimeval() did not return its result

It was also not inline, although it is defined in a header, and gave negative
microseconds for times before the epoch.
---
 sm_boost/include/sm/boost/ptime.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index 3831f58..dd70763 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -5,7 +5,7 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
@@ -13,10 +13,14 @@ namespace sm {
         boost::posix_time::time_duration duration( time - UNIX_EPOCH );
         timeval tv;
         tv.tv_sec = duration.total_seconds();
-        tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        tv.tv_usec = (duration - boost::posix_time::seconds(duration.total_seconds())).total_microseconds();
+        if(tv.tv_usec < 0)
+        {
+            // Before the epoch: the microseconds count forward from the second before.
+            tv.tv_usec += 1000000;
+            tv.tv_sec -= 1;
+        }
+        return tv;
     }
 
     
-- 
2.43.0


From 327760eeae156a31b8814f04095b94d302e881ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 50/89] fix: saving did not report that the file could not be
 written completely

---
 sm_boost/include/sm/boost/serialization.hpp | 29 ++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 9eeecd0..c5fbfd3 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -21,9 +21,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -44,9 +48,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::text_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -67,14 +75,17 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
 
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
-
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
-- 
2.43.0


From 19c3eaac22de4a9f7a491ee1c88629b3d8b76362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 51/89] fix: loading an empty matrix with a fixed number of
 rows read data that was not saved

---
 sm_eigen/include/sm/eigen/serialization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..57986c4 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From ba0b60429b97447040c586b8a73f2601df3a2c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 52/89] fix: the square root of a singular matrix was not a
 number

---
 sm_eigen/include/sm/eigen/matrix_sqrt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
index 01048fa..a949b96 100755
--- a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
+++ b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
@@ -33,7 +33,8 @@ namespace sm {
             Eigen::LDLT< DERIVED2 > ldlt(inMatrix.derived());
             result = ldlt.matrixL();
             result = ldlt.transpositionsP().transpose() * result;
-            result *= ldlt.vectorD().array().sqrt().matrix().asDiagonal();
+            // Rounding makes the diagonal of a singular matrix slightly negative.
+            result *= ldlt.vectorD().cwiseMax(typename DERIVED2::Scalar(0)).cwiseSqrt().asDiagonal();
             
             //return ldlt.info();
             
-- 
2.43.0


From 9166d5e1b462a6c85e811523f96e1faf8336a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 53/89] fix: loading an xml file cut in its closing tag ended
 the process

---
 sm_boost/include/sm/boost/serialization.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index c5fbfd3..0a543e0 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -2,6 +2,8 @@
 #define BOOST_SERIALIZATION_HPP
 
 #include <fstream>
+#include <sstream>
+#include <string>
 #include <boost/archive/text_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/binary_oarchive.hpp>
@@ -94,7 +96,10 @@ namespace sm { namespace boost_serialization {
             std::ifstream ifs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ifs.good(), "Unable to open file " << filename << " for reading");
 
-            ::boost::archive::xml_iarchive ia(ifs);
+            std::stringstream content;
+            content << ifs.rdbuf();
+            SM_ASSERT_TRUE(std::runtime_error,content.good() && ifs.good(), "Unable to read file " << filename);
+            ::boost::archive::xml_iarchive ia(content);
 
             if(topLevelXmlTag.size() == 0)
             {
@@ -103,6 +108,11 @@ namespace sm { namespace boost_serialization {
    
             ia >> ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
 
+            // The destructor of the archive reads the closing tag. It must not throw.
+            const std::streampos position = content.tellg();
+            std::string closingTag;
+            SM_ASSERT_TRUE(std::runtime_error,std::getline(content, closingTag, '>').good(), "The file " << filename << " is incomplete");
+            content.seekg(position);
         }
 
         template<typename T>
-- 
2.43.0


From 0e3f6879f7a382cfe4bc31817ebbc097d16e1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 54/89] fix: axisAngle2quat() had the wrong sign in its series
 for small angles

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 8985046..4fe67c4 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From b5699b7c29e156c553bc874aadab3697ab4fabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 55/89] fix: quat2AxisAngle() dropped a term of its series for
 small angles

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 4fe67c4..a0c1929 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 517053f9d9b2d62a1a6c98ddb5dc60ed7fd353cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 56/89] fix: axisAngle2R() gave the identity for negative
 angles

---
 sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 26ee3f6..233073e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -98,7 +98,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From d8d3c2ce001104c75e59346536ce1e2b4abcb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 57/89] fix: Euler angles of a rotation were NaN or wrong where
 the pitch is +-90 degrees

---
 sm_kinematics/src/EulerAnglesYawPitchRoll.cpp | 12 ++-------
 sm_kinematics/src/EulerAnglesZXY.cpp          | 11 +++++---
 sm_kinematics/src/EulerAnglesZYX.cpp          | 12 ++-------
 sm_kinematics/src/rotations.cpp               | 26 +++++++------------
 4 files changed, 21 insertions(+), 40 deletions(-)

diff --git a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index 15ef6b5..a8d5e7e 100755
--- a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
+#include <sm/kinematics/rotations.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -36,16 +37,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
-      double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
-      double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
-    
-      Eigen::Vector3d ret;
-      ret[2] = theta;
-      ret[1] = phi;
-      ret[0] = psi;
-      
-      return ret;
+      return R2rph(rotationMatrix).reverse();
     }
     
     Eigen::Matrix3d EulerAnglesYawPitchRoll::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/sm_kinematics/src/EulerAnglesZXY.cpp b/sm_kinematics/src/EulerAnglesZXY.cpp
index 577c3b6..e7b0734 100644
--- a/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -66,10 +66,15 @@ namespace sm {
 
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
-      const double sx = rotationMatrix(2, 1);
-      const double r_x = asin(sx);
-      const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
+      // One angle after the other, so that the angles fit together where r_x
+      // is +-pi/2 and the other two are not unique.
       const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
+      const double cz = cos(r_z);
+      const double sz = sin(r_z);
+      const double r_x = atan2(rotationMatrix(2, 1),
+        cz * rotationMatrix(1, 1) - sz * rotationMatrix(0, 1));
+      const double r_y = atan2(cz * rotationMatrix(0, 2) + sz * rotationMatrix(1, 2),
+        cz * rotationMatrix(0, 0) + sz * rotationMatrix(1, 0));
       return Eigen::Vector3d(r_z, r_x, r_y);
     }
 
diff --git a/sm_kinematics/src/EulerAnglesZYX.cpp b/sm_kinematics/src/EulerAnglesZYX.cpp
index b56c9ec..fa05fe7 100755
--- a/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerAnglesZYX.hpp>
+#include <sm/kinematics/rotations.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -36,16 +37,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
-      double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
-      double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
-    
-      Eigen::Vector3d ret;
-      ret[2] = -theta;
-      ret[1] = phi;
-      ret[0] = -psi;
-      
-      return ret;
+      return C2rph(rotationMatrix).reverse();
     }
     
     Eigen::Matrix3d EulerAnglesZYX::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 233073e..067290b 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -62,13 +62,17 @@ namespace sm { namespace kinematics {
   }
 
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
-    double theta = atan2(C(2,1),C(2,2));
+    // Extract one angle after the other, so that the angles fit together
+    // where the pitch is +-pi/2 and the other two are not unique.
     double psi = atan2(C(1,0), C(0,0));
+    double cz = cos(psi);
+    double sz = sin(psi);
+    double phi = atan2(-C(2,0), cz*C(0,0)+sz*C(1,0));
+    double theta = atan2(sz*C(0,2)-cz*C(1,2), cz*C(1,1)-sz*C(0,1));
     
     Eigen::Vector3d ret;
     ret[0] = theta;
-    ret[1] = -phi;
+    ret[1] = phi;
     ret[2] = psi;
 
     return ret;
@@ -192,24 +196,12 @@ namespace sm { namespace kinematics {
      SM_ASSERT_EQ_DBG(std::runtime_error,C.rows(),3,"The input matrix must be 3x3");
      SM_ASSERT_EQ_DBG(std::runtime_error,C.cols(),3,"The input matrix must be 3x3");
 
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     return C2rph(Eigen::Matrix3d(C));
    }
 
    Eigen::Vector3d C2rph(Eigen::Matrix3d const & C)
    {
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     return -R2rph(C);
    }
 
 
-- 
2.43.0


From 57a141928fc3d18e981f4d37a9e6151fd251b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 58/89] fix: the rotation vector of a rotation by pi was zero

---
 sm_kinematics/src/RotationVector.cpp | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index c48e9e9..d7c94c4 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/RotationVector.hpp>
+#include <sm/kinematics/rotations.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -56,27 +57,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Vector3d RotationVector::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
         {
-            Eigen::Vector3d p;
-            // Sometimes, because of roundoff error, the value of tr ends up outside
-            // the valid range of arccos. Truncate to the valid range.
-            double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-            double a = acos( tr ) ;
-
-            if(fabs(a) < 1e-14){
-                return Eigen::Vector3d::Zero();
-            }
-      
-            p[0] = (C(2,1) - C(1,2));
-            p[1] = (C(0,2) - C(2,0));
-            p[2] = (C(1,0) - C(0,1));
-            double n2 = p.norm();
-            if(fabs(n2) < 1e-14)
-                return Eigen::Vector3d::Zero();
-      
-            double scale = -a/n2;
-            p = scale * p;
-
-            return p;
+            return R2AxisAngle(C);
         }
 
         Eigen::Matrix3d RotationVector::parametersToSMatrix(const Eigen::Vector3d & parameters) const
-- 
2.43.0


From e6f95583b75dc39462a6dce889e3a43252db3f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 59/89] fix: EulerRodriguez parameters of a matrix next to the
 identity were NaN

---
 sm_kinematics/src/EulerRodriguez.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_kinematics/src/EulerRodriguez.cpp b/sm_kinematics/src/EulerRodriguez.cpp
index ad19ee1..e9fe791 100755
--- a/sm_kinematics/src/EulerRodriguez.cpp
+++ b/sm_kinematics/src/EulerRodriguez.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerRodriguez.hpp>
+#include <algorithm>
 
 namespace sm { namespace kinematics {
 
@@ -27,7 +28,10 @@ namespace sm { namespace kinematics {
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
       Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
+      // Sometimes, because of roundoff error, the value of tr ends up outside
+      // the valid range of arccos. Truncate to the valid range.
+      double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
+      double a = acos( tr );
 
       if(fabs(a) < 1e-14){
 	return Eigen::Vector3d::Zero();
-- 
2.43.0


From a97af9e89f8b94d8f5305fb4ebfe6e78fc58806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 60/89] fix: the inverse S matrix of a RotationVector was wrong
 for small angles

---
 sm_kinematics/src/RotationVector.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index d7c94c4..e13e480 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -1,5 +1,6 @@
 #include <sm/kinematics/RotationVector.hpp>
 #include <sm/kinematics/rotations.hpp>
+#include <sm/kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -166,19 +167,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Matrix3d RotationVector::parametersToInverseSMatrix(const Eigen::Vector3d & parameters) const
         {
-            double phi = std::sqrt(parameters.transpose()*parameters);
-            Eigen::Matrix3d invS;
-            if(phi == 0)
-            {
-                invS = Eigen::Matrix3d::Identity();
-            }
-            else
-            {
-                double cot = - std::sin(phi)/(std::cos(phi)-1);
-                double a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
-                invS = Eigen::Matrix3d::Identity() + 0.5*crossMx(parameters) + a1*crossMx(parameters)*crossMx(parameters);
-            }
-            return invS;
+            return logDiffMat<double>(parameters);
         }
 
 
-- 
2.43.0


From dc620f00ae8c911cee3194e0d86624cf187f4d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 61/89] fix: the Jacobian of a RotationVector was NaN or noise
 for small angles

---
 sm_kinematics/src/RotationVector.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index e13e480..a55293b 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -116,6 +116,18 @@ namespace sm { namespace kinematics {
                 double t6 = t2*t2;
                 double t7 = t3*t3;
                 double t8 = t5+t6+t7;
+                if(t8 < 1e-4)
+                {
+                    // The closed form divides by powers of the angle. S is
+                    // I + a [p]x + b [p]x[p]x. Use the series of a and b.
+                    double a = -1.0/2.0 + t8*(1.0/24.0);
+                    double b = 1.0/6.0 - t8*(1.0/120.0);
+                    Eigen::Vector3d pxd = p.cross(pdot);
+                    Jacobian->block<3,3>(0,0) = -a * crossMx(pdot) + pxd * p.transpose() * (1.0/12.0)
+                        + b * (p.dot(pdot) * Eigen::Matrix3d::Identity() + p * pdot.transpose() - 2.0 * pdot * p.transpose())
+                        - p.cross(pxd) * p.transpose() * (1.0/60.0);
+                    return omega;
+                }
                 double t9 = pow(t8,3.0/2.0);
                 double t10 = sqrt(t8);
                 double t11 = sin(t10);
-- 
2.43.0


From 40de899d8665caa7afb40d18bb6617b59798b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 62/89] fix: deg2rad() was accurate to 13 digits only

---
 sm_kinematics/include/sm/kinematics/rotations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/include/sm/kinematics/rotations.hpp b/sm_kinematics/include/sm/kinematics/rotations.hpp
index 7774493..df7ce9e 100755
--- a/sm_kinematics/include/sm/kinematics/rotations.hpp
+++ b/sm_kinematics/include/sm/kinematics/rotations.hpp
@@ -16,7 +16,7 @@
 #define SM_PI_2 		1.5707963267948966 // pi/2
 #define SM_PI_4 		0.7853981633974483 // pi/4
 #define SM_2PI 		6.283185307179586  // 2*pi
-#define SM_DEG2RAD	0.017453292519943  // pi/180
+#define SM_DEG2RAD	0.017453292519943295  // pi/180
 #define SM_RAD2DEG	57.295779513082323 // 180/pi
 
 #define SM_1_PI_F 	0.3183098861837907f
-- 
2.43.0


From 24a26ca563493e80e3b30c8f9954a80c0083d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 63/89] fix: Transformation::oplus() let the quaternion drift
 from unit length

---
 sm_kinematics/src/Transformation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_kinematics/src/Transformation.cpp b/sm_kinematics/src/Transformation.cpp
index ba12982..d7bcde1 100755
--- a/sm_kinematics/src/Transformation.cpp
+++ b/sm_kinematics/src/Transformation.cpp
@@ -137,6 +137,8 @@ namespace sm {
     void Transformation::oplus(const Eigen::Matrix<double,6,1> & dt)
     {
       _q_a_b = updateQuat( _q_a_b, dt.tail<3>() );
+      // Rounding errors of many updates must not add up in the norm.
+      _q_a_b.normalize();
       _t_a_b_a += dt.head<3>();
     }
 
-- 
2.43.0


From ded216ba5181efaefdc570f2ede83f7eda787fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 64/89] fix: sums and differences of uncertain homogeneous
 points had wrong covariances

---
 sm_kinematics/src/HomogeneousPoint.cpp          | 11 +++++++++--
 sm_kinematics/src/UncertainHomogeneousPoint.cpp | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/sm_kinematics/src/HomogeneousPoint.cpp b/sm_kinematics/src/HomogeneousPoint.cpp
index babf6a3..e3ec566 100755
--- a/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/HomogeneousPoint.hpp>
+#include <sm/kinematics/homogeneous_coordinates.hpp>
 #include <sm/kinematics/quaternion_algebra.hpp>
 #include <sm/kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm/serialization_macros.hpp>
@@ -51,7 +52,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
 
     }
       
@@ -65,7 +68,11 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // The Jacobian of the difference with respect to the right point.
+      Eigen::Matrix4d JR = toHomogeneousMinus(_ph);
+      JR.row(3) *= -1.0;
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(JR * rhs.U4() * JR.transpose()));
     }
 
 
diff --git a/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index f839f94..106a11b 100755
--- a/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -175,7 +177,9 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	Eigen::Matrix4d PR = toHomogeneousMinus(pr);
+
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
       }
 
@@ -203,10 +207,12 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
-	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	// The Jacobians of the difference with respect to the left and right point.
+	Eigen::Matrix4d JL = toHomogeneousMinus(rhs._ph);
+	Eigen::Matrix4d JR = toHomogeneousMinus(_ph);
+	JR.row(3) *= -1.0;
 	
-	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(JL * U4() * JL.transpose() + JR * rhs.U4() * JR.transpose()));	
 	
       }
 
-- 
2.43.0


From aef8a4e956d5b7367cb7822951425f7dab6dc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 65/89] fix: a log statement used with different levels by
 several threads lost messages

---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  3 +++
 sm_logging/include/sm/logging/console.hpp        | 16 +++++++---------
 sm_logging/src/LoggingGlobals.cpp                |  6 +++++-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index 0d489f0..86549ef 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -55,6 +55,9 @@ namespace sm {
 
             void checkLogLocationEnabled(LogLocation* loc);
 
+            /// \brief Is a message with this level enabled at this (initialized) location?
+            bool isLogLocationEnabled(const LogLocation* loc, Level level);
+
 
 
             /**
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 23317c6..1aeaec9 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -67,19 +67,17 @@ namespace sm
 
 #define SMCONSOLE_DEFINE_LOCATION(cond, level, name)                    \
     static ::sm::logging::LogLocation loc;                              \
+    const ::sm::logging::Level level___ = level;                        \
     if (SM_UNLIKELY(!loc._initialized))                                 \
     {                                                                   \
-        ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level); \
+        ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level___); \
     }                                                                   \
-    if (SM_UNLIKELY(loc._level != level))                               \
-    {                                                                   \
-        ::sm::logging::g_logging_globals.setLogLocationLevel(&loc, level);             \
-        ::sm::logging::g_logging_globals.checkLogLocationEnabled(&loc);                \
-    }                                                                   \
-    bool enabled = loc._loggerEnabled && (cond);
+    /* other threads may use this location with another level */        \
+    bool enabled = (SM_LIKELY(loc._level == level___) ? loc._loggerEnabled.load() : \
+        ::sm::logging::g_logging_globals.isLogLocationEnabled(&loc, level___)) && (cond);
 
 #define SMCONSOLE_PRINT_AT_LOCATION(...)                      \
-    ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
+    ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), level___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
 
 
 #define SMCONSOLE_PRINT_STREAM_AT_LOCATION(args)                        \
@@ -87,7 +85,7 @@ namespace sm
     {                                                                   \
         ::sm::logging::vectorstream ss___;                              \
          ss___ << args;                                                 \
-        ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
+        ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), level___, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
     } while (0)
 
 
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index fbda849..ae79646 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -49,7 +49,11 @@ namespace sm {
         }
 
         void LoggingGlobals::checkLogLocationEnabledNoLock(LogLocation* loc) {
-            loc->_loggerEnabled = loc->_level >= _level && (loc->_streamName.size() == 0 || isNamedStreamEnabled(loc->_streamName));
+            loc->_loggerEnabled = isLogLocationEnabled(loc, loc->_level);
+        }
+
+        bool LoggingGlobals::isLogLocationEnabled(const LogLocation* loc, Level level) {
+            return level >= _level && (loc->_streamName.size() == 0 || isNamedStreamEnabled(loc->_streamName));
         }
 
         void LoggingGlobals::initializeLogLocation(LogLocation* loc, const std::string& name, Level level){
-- 
2.43.0


From e96f3cbaef719973f4522cc5e9d306afa780d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 66/89] fix: SM_ASSERT_MAT_IS_FINITE replaced the variables r
 and c of its arguments by its own

---
 sm_eigen/include/sm/eigen/assert_macros.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/assert_macros.hpp b/sm_eigen/include/sm/eigen/assert_macros.hpp
index b7bc507..92fd42c 100755
--- a/sm_eigen/include/sm/eigen/assert_macros.hpp
+++ b/sm_eigen/include/sm/eigen/assert_macros.hpp
@@ -18,14 +18,14 @@
 
 #define SM_ASSERT_MAT_IS_FINITE(exceptionType, matrix, message)		\
   {									\
-  for(int r = 0; r < matrix.rows(); ++r)				\
+  for(int sm_assert_r = 0; sm_assert_r < (matrix).rows(); ++sm_assert_r)				\
     {									\
-      for(int c = 0; c < matrix.cols(); ++c)				\
+      for(int sm_assert_c = 0; sm_assert_c < (matrix).cols(); ++sm_assert_c)				\
 	{								\
-	  if(!std::isfinite(matrix(r,c)))				\
+	  if(!std::isfinite((matrix)(sm_assert_r,sm_assert_c)))				\
 	    {								\
 	      std::stringstream sm_assert_stringstream;		\
-	      sm_assert_stringstream << "debug assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << matrix(r,c) << " ) ]" << message << std::endl << matrix; \
+	      sm_assert_stringstream << "debug assert( isfinite(" << #matrix << "(" << sm_assert_r << ", " << sm_assert_c << ") ) failed. [ isfinite(" << (matrix)(sm_assert_r,sm_assert_c) << " ) ]" << message << std::endl << (matrix); \
 	      sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
 	    }								\
 	}								\
@@ -37,14 +37,14 @@
 
 #define SM_ASSERT_MAT_IS_FINITE_DBG(exceptionType, matrix, message)		\
   {									\
-  for(int r = 0; r < matrix.rows(); ++r)				\
+  for(int sm_assert_r = 0; sm_assert_r < (matrix).rows(); ++sm_assert_r)				\
     {									\
-      for(int c = 0; c < matrix.cols(); ++c)				\
+      for(int sm_assert_c = 0; sm_assert_c < (matrix).cols(); ++sm_assert_c)				\
 	{								\
-	  if(!std::isfinite(matrix(r,c)))				\
+	  if(!std::isfinite((matrix)(sm_assert_r,sm_assert_c)))				\
 	    {								\
 	      std::stringstream sm_assert_stringstream;		\
-	      sm_assert_stringstream << "assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << matrix(r,c) << " ) ]" << message << std::endl << matrix; \
+	      sm_assert_stringstream << "assert( isfinite(" << #matrix << "(" << sm_assert_r << ", " << sm_assert_c << ") ) failed. [ isfinite(" << (matrix)(sm_assert_r,sm_assert_c) << " ) ]" << message << std::endl << (matrix); \
 	      sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
 	    }								\
 	}								\
-- 
2.43.0


From 91170d650bf21493ce204d16c4e334cc68991885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 67/89] fix: compareRelative() took a NaN, and an infinity and
 a number, for equal

ASSERT_DOUBLE_MX_EQ therefore passed for a matrix of NaNs.
---
 sm_eigen/include/sm/eigen/gtest.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 9c13b4e..3d82c2a 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -108,13 +108,14 @@ namespace sm { namespace eigen {
 	  // \todo: does anyone have a better idea?
       double fa = fabs(a);
       double fb = fabs(b);
-      if( (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
+      if( a == b ||                      // This includes equal infinities.
+		  (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
 		  (fa == 0.0  && fb < 1e-6)  ||  // One exactly zero and the other small
 		  (fb == 0.0  && fa < 1e-6) )    // ditto
 		return true;
       
       double diff = fabs(a - b)/std::max(fa,fb);
-      if(diff > percentTolerance * 1e-2)
+      if(!(diff <= percentTolerance * 1e-2)) // A NaN is not within any tolerance.
 		{
 		  if(percentError)
 			*percentError = diff * 100.0;
-- 
2.43.0


From bdc7af95b23c291f4d488a130e6cd01521968d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 68/89] fix: expectNear() read outside of a matrix of another
 size

---
 sm_eigen/include/sm/eigen/gtest.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 3d82c2a..9e9b3b4 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -77,6 +77,8 @@ namespace sm { namespace eigen {
     {
       EXPECT_EQ((size_t)A.rows(),(size_t)B.rows()) << message << "\nMatrix A:\n" << A << "\nand matrix B\n" << B << "\nare not the same\n" << sfp.toString();
       EXPECT_EQ((size_t)A.cols(),(size_t)B.cols()) << message << "\nMatrix A:\n" << A << "\nand matrix B\n" << B << "\nare not the same\n" << sfp.toString();
+      if(A.rows() != B.rows() || A.cols() != B.cols())
+        return; // There are no elements to compare.
 
       for(int r = 0; r < A.rows(); r++)
         {
-- 
2.43.0


From f3d1a6ff43b1f57fd4d3c0b7ed28b901229a3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 69/89] fix: ASSERT_DOUBLE_MX_EQ replaced the variables r and c
 of its arguments by its own

---
 sm_eigen/include/sm/eigen/gtest.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 9e9b3b4..770e94b 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -130,16 +130,16 @@ namespace sm { namespace eigen {
 #define ASSERT_DOUBLE_MX_EQ(A, B, PERCENT_TOLERANCE, MSG)				\
     ASSERT_EQ((size_t)(A).rows(), (size_t)(B).rows())  << MSG << "\nMatrix " << #A << ":\n" << A << "\nand matrix " << #B << "\n" << B << "\nare not the same size"; \
     ASSERT_EQ((size_t)(A).cols(), (size_t)(B).cols())  << MSG << "\nMatrix " << #A << ":\n" << A << "\nand matrix " << #B << "\n" << B << "\nare not the same size"; \
-    for(int r = 0; r < (A).rows(); r++)									\
+    for(int sm_mx_r = 0; sm_mx_r < (A).rows(); sm_mx_r++)									\
       {																	\
-		for(int c = 0; c < (A).cols(); c++)								\
+		for(int sm_mx_c = 0; sm_mx_c < (A).cols(); sm_mx_c++)								\
 		  {																\
-			double percentError = 0.0;									\
-			ASSERT_TRUE(sm::eigen::compareRelative( (A)(r,c), (B)(r,c), PERCENT_TOLERANCE, &percentError)) \
+			double sm_mx_percentError = 0.0;									\
+			ASSERT_TRUE(sm::eigen::compareRelative( (A)(sm_mx_r,sm_mx_c), (B)(sm_mx_r,sm_mx_c), PERCENT_TOLERANCE, &sm_mx_percentError)) \
 			  << MSG << "\nComparing:\n"								\
-			  << #A << "(" << r << "," << c << ") = " << (A)(r,c) << std::endl \
-			  << #B << "(" << r << "," << c << ") = " << (B)(r,c) << std::endl \
-			  << "Error was " << percentError << "% > " << PERCENT_TOLERANCE << "%\n" \
+			  << #A << "(" << sm_mx_r << "," << sm_mx_c << ") = " << (A)(sm_mx_r,sm_mx_c) << std::endl \
+			  << #B << "(" << sm_mx_r << "," << sm_mx_c << ") = " << (B)(sm_mx_r,sm_mx_c) << std::endl \
+			  << "Error was " << sm_mx_percentError << "% > " << PERCENT_TOLERANCE << "%\n" \
 			  << "\nMatrix " << #A << ":\n" << A << "\nand matrix " << #B << "\n" << B; \
 		  }																\
       }
-- 
2.43.0


From c259469890860d18c49fc0b6f9df76af18679c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 70/89] fix: showProgress() left std::cout printing numbers
 with two digits

---
 sm_common/src/progress_info.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm_common/src/progress_info.cpp b/sm_common/src/progress_info.cpp
index c8a1859..c6ffab0 100644
--- a/sm_common/src/progress_info.cpp
+++ b/sm_common/src/progress_info.cpp
@@ -9,6 +9,7 @@
 
 #include <iostream>     // std::cout, std::fixed
 #include <iomanip>      // std::setprecision
+#include <sstream>      // std::ostringstream
 
 namespace sm {
 
@@ -17,13 +18,15 @@ void showProgress(double progress)
 	SM_ASSERT_GE_DBG(std::runtime_error, progress, 0.0, "negative progress! shame on you!");
 	SM_ASSERT_LE_DBG(std::runtime_error, progress, 1.0, "progress out of bounds!");
 
-	std::cout << std::fixed << std::setprecision(2) << std::showpoint;
 	if(progress >= 1.0)
 	{
 		std::cout << "\r" << "Complete!             " << std::endl;
 	} else
 	{
-		std::cout << "\r" << 100 * progress << "% complete ";
+		// Formatted apart from std::cout, whose format is the caller's.
+		std::ostringstream text;
+		text << std::fixed << std::setprecision(2) << std::showpoint << 100 * progress;
+		std::cout << "\r" << text.str() << "% complete ";
 		std::cout.flush();
 	}
 }
-- 
2.43.0


From 2f69cdb3aef8e6e5ee6509f84457449f3fc7f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 71/89] fix: logVerbose() of sm_python used a logging level
 that does not exist

---
 sm_python/python/sm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/python/sm/__init__.py b/sm_python/python/sm/__init__.py
index 8841ffa..64efc28 100755
--- a/sm_python/python/sm/__init__.py
+++ b/sm_python/python/sm/__init__.py
@@ -29,7 +29,7 @@ def logFinest(message):
     log(LoggingLevel.Finest, message, stackdepth=2)
     
 def logVerbose(message):
-    log(LoggingLevel.FineVerbose, message, stackdepth=2)
+    log(LoggingLevel.Verbose, message, stackdepth=2)
     
 def logFiner(message):
     log(LoggingLevel.Finer, message, stackdepth=2)
-- 
2.43.0


From 05aaa3da2c2d2eafdfd7d16b13c393dd411e394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 72/89] fix: Progress2 of sm_python printed None and a new line
 with every sample

---
 sm_python/python/sm/Progress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_python/python/sm/Progress.py b/sm_python/python/sm/Progress.py
index 17887be..fa08883 100644
--- a/sm_python/python/sm/Progress.py
+++ b/sm_python/python/sm/Progress.py
@@ -65,8 +65,8 @@ class Progress2(object):
             if h > 0: t_remaining_str = "%d h " % h
             if m > 0: t_remaining_str = t_remaining_str + "%dm " % m
             if s > 0: t_remaining_str = t_remaining_str + "%ds" % s
-            print("\r  Progress {0} / {1} \t Time remaining: {2}                 ".format(self.iteration, self.numIterations, t_remaining_str),
-            sys.stdout.flush())
+            print("\r  Progress {0} / {1} \t Time remaining: {2}                 ".format(self.iteration, self.numIterations, t_remaining_str), end="")
+            sys.stdout.flush()
         else:
             self.startTime = time.time()
             self.iteration = 0
-- 
2.43.0


From e7d59421d6a72a491ead06a25b3a279b7e980000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 73/89] fix: Progress2 of sm_python could show 59m 60s as
 remaining when nothing remains

---
 sm_python/python/sm/Progress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/python/sm/Progress.py b/sm_python/python/sm/Progress.py
index fa08883..713fdd7 100644
--- a/sm_python/python/sm/Progress.py
+++ b/sm_python/python/sm/Progress.py
@@ -59,7 +59,7 @@ class Progress2(object):
             timePerRun = self.elapsed / self.iteration
             totalTime = self.numIterations * timePerRun
             
-            m, s = divmod(totalTime-self.elapsed, 60)
+            m, s = divmod(max(0.0, totalTime-self.elapsed), 60)
             h, m = divmod(m, 60)
             t_remaining_str = ""
             if h > 0: t_remaining_str = "%d h " % h
-- 
2.43.0


From fd57255872ac073da9eb5daea5867e92c5609afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 74/89] fix: serializing a cv::Mat that is a part of a larger
 one read outside of it, and loading into one failed

---
 sm_opencv/include/sm/opencv/serialization.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 9134e96..a097d1e 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -123,7 +123,7 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.elemSize()*mat_.cols*mat_.rows)); // The step of a single row may be larger.
     }
  
     template<class Archive>
@@ -134,7 +134,11 @@ namespace boost
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
       mat.create(rows, cols, type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
+      if (!mat.isContinuous()) {
+		mat.release(); // It was a part of a larger matrix, with gaps between its rows.
+		mat.create(rows, cols, type);
+      }
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.elemSize()*mat.cols*mat.rows));
     }
  
   }} // namespace boost::serialization.
-- 
2.43.0


From a3d890cfd52c2357d75861217b61721fd77b4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 75/89] fix: Engine(false) of sm_matlab closed an engine that
 was never opened

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index dfbd21f..09633bc 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -15,6 +15,7 @@ namespace sm {
 
 	Engine::Engine(bool startMatlabAtInitialization)
     {
+		_engine = NULL;
 		// make sure the output buffer is NULL terminated
         _outputBuffer[OUTPUT_BUFFER_SIZE] = '\0';
 
-- 
2.43.0


From e28b7a969152daf341b7d00be6b85ede1beda9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 76/89] fix: Engine::exists() used an engine that is not
 initialized

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 09633bc..69f5826 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -149,6 +149,7 @@ namespace sm {
 
 	  bool Engine::exists(const std::string& name)
 	  {
+		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
-- 
2.43.0


From e2c052646c52c92983885f3071afa52ed851c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 77/89] fix: Engine::getEigen() read 64 bit integers as doubles

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 69f5826..01b60af 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -343,6 +343,7 @@ namespace sm {
 
 		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray), 1, "Variable is not numeric");
 		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
+		SM_ASSERT_EQ(InvalidTypeException, mxIsDouble(mxArray), 1, "Datatype does not match");
 		SM_ASSERT_EQ(InvalidSizeException, mxGetNumberOfDimensions(mxArray), 2, "Variable is 2-dimensional");
 
 		size_t rows = mxGetM(mxArray);
-- 
2.43.0


From 166e67087d6fac700906924779f39b0050b1cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 78/89] fix: destroying an Engine whose Matlab is already
 closed ended the program

---
 sm_matlab/src/Engine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 01b60af..42f87c7 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -41,8 +41,8 @@ namespace sm {
     {
 		if (_engine!=NULL)
 		{
-			int success = engClose(_engine);
-			SM_ASSERT_EQ_DBG(EngineCloseException, success, 0, "Closing Matlab was not possible. Maybe already closed.");
+			// A destructor must not throw: if closing fails, Matlab is already closed.
+			engClose(_engine);
 		}
     }
 
-- 
2.43.0


From 50dc3c2bf627bfd13a89de87eb1b1e8d41659abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 79/89] fix: Engine removed the last character of commands and
 outputs without a line break

---
 sm_matlab/src/Engine.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 42f87c7..04b2a7c 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -101,8 +101,8 @@ namespace sm {
         SM_ASSERT_EQ(EngineExecutionException, success, 0, "Failed to execute command. Maybe Matlab is already closed. Note: This assert is NOT thrown due to invalid Matlab syntax");
         // return the result
         std::string output(_outputBuffer);
-		// remove line break
-		if(output.size()>0)
+		// remove line break, if there is one
+		if(output.size()>0 && output[output.size() - 1] == '\n')
 			output.resize(output.size() - 1);
 		
 		return output;
@@ -131,8 +131,9 @@ namespace sm {
             
             // Convert to string
             std::string command(_inputBuffer);
-			// remove line break
-			command.resize(command.size() - 1);
+			// remove line break, if there is one
+			if(command.size() > 0 && command[command.size() - 1] == '\n')
+				command.resize(command.size() - 1);
 			
             // Check if user wants to exit
             // this intentionally blocks the MATLAB commands "exit" and "quit"
-- 
2.43.0


From 8034dc0b5d7c68350bf85a07724eac8700bae371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 80/89] fix: Engine of sm_matlab never destroyed the arrays of
 its tests and of failing calls

---
 sm_matlab/include/sm/matlab/Engine.hpp |  20 ++---
 sm_matlab/src/Engine.cpp               | 107 +++++++++++--------------
 2 files changed, 56 insertions(+), 71 deletions(-)

diff --git a/sm_matlab/include/sm/matlab/Engine.hpp b/sm_matlab/include/sm/matlab/Engine.hpp
index cef7ec3..b7c32cf 100644
--- a/sm_matlab/include/sm/matlab/Engine.hpp
+++ b/sm_matlab/include/sm/matlab/Engine.hpp
@@ -6,6 +6,7 @@
 
 #include <Eigen/Core>
 #include <engine.h>
+#include <boost/shared_ptr.hpp>
 
 #include <sm/assert_macros.hpp>
 
@@ -175,6 +176,9 @@ namespace sm {
       void assertValidVariableName(const std::string& name) const;
 	  void assertIsInitialized() const;
 
+	  // Gives an array of Matlab back (an array that does not exist is NULL)
+	  static void destroyArray(::mxArray* array) { if (array) mxDestroyArray(array); }
+
       /// The handle for the matlab engine
       ::Engine *_engine;
       
@@ -193,22 +197,20 @@ namespace sm {
 		// convert to double
 		Eigen::MatrixXd matrix = matrixBase.template cast<double>();
     
-        mxArray* mxArray = mxCreateDoubleMatrix(matrix.rows(), matrix.cols(), mxREAL);
+        boost::shared_ptr< ::mxArray > mxArray(mxCreateDoubleMatrix(matrix.rows(), matrix.cols(), mxREAL), destroyArray);
         
-        SM_ASSERT_EQ(InvalidSizeException, mxGetElementSize(mxArray), sizeof(double), "Data types do not match");
+        SM_ASSERT_EQ(InvalidSizeException, mxGetElementSize(mxArray.get()), sizeof(double), "Data types do not match");
         
         // typecast to double
         Eigen::MatrixXd matrixD = matrix.cast<double>();
     
         // get pointer to mxArray and copy over data
-        double* mxArrayData = mxGetPr(mxArray);
+        double* mxArrayData = mxGetPr(mxArray.get());
         memcpy(mxArrayData, matrixD.data(), matrixD.size()*sizeof(double));
         
         // send data and verify
-        int success = engPutVariable(_engine, name.c_str(), mxArray);
+        int success = engPutVariable(_engine, name.c_str(), mxArray.get());
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 	template <typename Scalar>
@@ -218,13 +220,11 @@ namespace sm {
         assertValidVariableName(name);
     
         // Matlab stores all variables as doubles so we can just type cast here
-        mxArray* mxArray = mxCreateDoubleScalar(static_cast<double>(value));
+        boost::shared_ptr< ::mxArray > mxArray(mxCreateDoubleScalar(static_cast<double>(value)), destroyArray);
               
         // send data and verify
-        int success = engPutVariable(_engine, name.c_str(), mxArray);
+        int success = engPutVariable(_engine, name.c_str(), mxArray.get());
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 
diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 04b2a7c..11bbcfc 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -1,6 +1,7 @@
 #include <sm/matlab/Engine.hpp>
 #include <cctype>
 #include <stdio.h>
+#include <vector>
 
 namespace sm {
   namespace matlab {
@@ -153,9 +154,9 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 		// Check if variable exists
-		return (mxArray!=NULL);
+		return (mxArray.get()!=NULL);
 	  }
 
 	  bool Engine::isScalar(const std::string& name)
@@ -163,11 +164,11 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 		// Check if variable exists
-		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
+		SM_ASSERT_TRUE(NoSuchVariableException, mxArray.get() != NULL, "Variable does not exist");
 		
-		return mxGetNumberOfElements(mxArray) == 1;
+		return mxGetNumberOfElements(mxArray.get()) == 1;
 	  }
 
 	  bool Engine::isEmpty(const std::string& name)
@@ -175,11 +176,11 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 		// Check if variable exists
-		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
+		SM_ASSERT_TRUE(NoSuchVariableException, mxArray.get() != NULL, "Variable does not exist");
 		
-		return mxIsEmpty(mxArray) == 1;
+		return mxIsEmpty(mxArray.get()) == 1;
 	  }
 
 	  bool Engine::isCharOrString(const std::string& name)
@@ -187,11 +188,11 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 		// Check if variable exists
-		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
+		SM_ASSERT_TRUE(NoSuchVariableException, mxArray.get() != NULL, "Variable does not exist");
 		
-		return mxIsChar(mxArray) == 1;
+		return mxIsChar(mxArray.get()) == 1;
 	  }
 
 	  bool Engine::getDimensions(const std::string& name, size_t& rows, size_t& cols)
@@ -199,13 +200,13 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 		// Check if variable exists
 		if(!mxArray)
 			return false;
 
-		rows = mxGetM(mxArray);
-		cols = mxGetN(mxArray);
+		rows = mxGetM(mxArray.get());
+		cols = mxGetN(mxArray.get());
 
 		return true;
 	  }
@@ -220,13 +221,11 @@ namespace sm {
         assertValidVariableName(name);
     
         // Matlab stores all variables as doubles so we can just type cast here
-        mxArray* mxArray = mxCreateString(value.c_str());
+        boost::shared_ptr< ::mxArray > mxArray(mxCreateString(value.c_str()), destroyArray);
               
         // send data and verify
-        int success = engPutVariable(_engine, name.c_str(), mxArray);
+        int success = engPutVariable(_engine, name.c_str(), mxArray.get());
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 	
@@ -236,13 +235,11 @@ namespace sm {
         assertValidVariableName(name);
     
         // Matlab stores all variables as doubles so we can just type cast here
-        mxArray* mxArray = mxCreateLogicalScalar(value);
+        boost::shared_ptr< ::mxArray > mxArray(mxCreateLogicalScalar(value), destroyArray);
               
         // send data and verify
-        int success = engPutVariable(_engine, name.c_str(), mxArray);
+        int success = engPutVariable(_engine, name.c_str(), mxArray.get());
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 
@@ -255,22 +252,19 @@ namespace sm {
         assertValidVariableName(name);
     
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
 			return false;
 		
 		// Check type
-		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray), 1, "Variable is not numeric (normally scalars are stored as doubles in Matlab)");
-		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
-		SM_ASSERT_EQ(InvalidTypeException, mxGetNumberOfElements(mxArray), 1, "Variable is not a scalar (has more than 1 element)");
+		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray.get()), 1, "Variable is not numeric (normally scalars are stored as doubles in Matlab)");
+		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray.get()), 0, "Variable is empty!");
+		SM_ASSERT_EQ(InvalidTypeException, mxGetNumberOfElements(mxArray.get()), 1, "Variable is not a scalar (has more than 1 element)");
 		
 		// read data
-		rValue = mxGetScalar(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
+		rValue = mxGetScalar(mxArray.get());
 
 		return true;
     }
@@ -281,25 +275,22 @@ namespace sm {
         assertValidVariableName(name);
     
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
 			return false;
 		
 		// Check type
-		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
-		SM_ASSERT_EQ(InvalidTypeException, mxIsChar(mxArray), 1, "Variable is not a character/string");
+		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray.get()), 0, "Variable is empty!");
+		SM_ASSERT_EQ(InvalidTypeException, mxIsChar(mxArray.get()), 1, "Variable is not a character/string");
 		
 		// read data
 		// lenght + 1 because of 0 terminated string
-		size_t lenght = mxGetNumberOfElements(mxArray)+1;
-		char* buffer = new char[lenght];
-		mxGetString(mxArray, buffer, lenght);
-		rValue = buffer;
-          
-		// delete array
-        mxDestroyArray(mxArray);
+		size_t lenght = mxGetNumberOfElements(mxArray.get())+1;
+		std::vector<char> buffer(lenght);
+		mxGetString(mxArray.get(), &buffer[0], lenght);
+		rValue = &buffer[0];
 
 		return true;
     }
@@ -310,22 +301,19 @@ namespace sm {
         assertValidVariableName(name);
     
         // Get variable from matlab
-        mxArray* mxArray = engGetVariable(_engine, name.c_str());
+        boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
 			return false;
 		
 		// Check type
-		SM_ASSERT_EQ(InvalidTypeException, mxIsLogical(mxArray), 1, "Variable is not of boolean type");
-		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
-		SM_ASSERT_EQ(InvalidTypeException, mxGetNumberOfElements(mxArray), 1, "Variable is not a scalar (has more than 1 element)");
+		SM_ASSERT_EQ(InvalidTypeException, mxIsLogical(mxArray.get()), 1, "Variable is not of boolean type");
+		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray.get()), 0, "Variable is empty!");
+		SM_ASSERT_EQ(InvalidTypeException, mxGetNumberOfElements(mxArray.get()), 1, "Variable is not a scalar (has more than 1 element)");
 		
 		// read data
-		rValue = mxIsLogicalScalarTrue(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
+		rValue = mxIsLogicalScalarTrue(mxArray.get());
 
 		return true;
     }
@@ -336,29 +324,26 @@ namespace sm {
 		assertValidVariableName(name);
 
 		// Get variable from matlab
-        mxArray* mxArray = engGetVariable(_engine, name.c_str());
+        boost::shared_ptr< ::mxArray > mxArray(engGetVariable(_engine, name.c_str()), destroyArray);
 
 		// Check if variable exists
 		if (!mxArray)
 			return false;
 
-		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray), 1, "Variable is not numeric");
-		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
-		SM_ASSERT_EQ(InvalidTypeException, mxIsDouble(mxArray), 1, "Datatype does not match");
-		SM_ASSERT_EQ(InvalidSizeException, mxGetNumberOfDimensions(mxArray), 2, "Variable is 2-dimensional");
+		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray.get()), 1, "Variable is not numeric");
+		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray.get()), 0, "Variable is empty!");
+		SM_ASSERT_EQ(InvalidTypeException, mxIsDouble(mxArray.get()), 1, "Datatype does not match");
+		SM_ASSERT_EQ(InvalidSizeException, mxGetNumberOfDimensions(mxArray.get()), 2, "Variable is 2-dimensional");
 
-		size_t rows = mxGetM(mxArray);
-		size_t cols = mxGetN(mxArray);
+		size_t rows = mxGetM(mxArray.get());
+		size_t cols = mxGetN(mxArray.get());
 
 		rValue.resize(rows, cols);
 
-		void* mxArrayData = mxGetData(mxArray);
+		void* mxArrayData = mxGetData(mxArray.get());
 
-		SM_ASSERT_EQ(InvalidTypeException, sizeof(rValue(0,0)), mxGetElementSize(mxArray), "Datatype does not match");
-		std::memcpy(rValue.data(), mxArrayData, mxGetElementSize(mxArray)*mxGetNumberOfElements(mxArray));
-
-		// delete array
-        mxDestroyArray(mxArray);
+		SM_ASSERT_EQ(InvalidTypeException, sizeof(rValue(0,0)), mxGetElementSize(mxArray.get()), "Datatype does not match");
+		std::memcpy(rValue.data(), mxArrayData, mxGetElementSize(mxArray.get())*mxGetNumberOfElements(mxArray.get()));
 
 		return true;
 	}
-- 
2.43.0


From 319bbe3d7e3b9f06a873fb5282646281e62e9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 81/89] fix: Engine::getEigen() read outside of the data of a
 sparse matrix

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 11bbcfc..555116f 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -333,6 +333,7 @@ namespace sm {
 		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray.get()), 1, "Variable is not numeric");
 		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray.get()), 0, "Variable is empty!");
 		SM_ASSERT_EQ(InvalidTypeException, mxIsDouble(mxArray.get()), 1, "Datatype does not match");
+		SM_ASSERT_FALSE(InvalidTypeException, mxIsSparse(mxArray.get()), "Variable is sparse: its data are not a dense matrix");
 		SM_ASSERT_EQ(InvalidSizeException, mxGetNumberOfDimensions(mxArray.get()), 2, "Variable is 2-dimensional");
 
 		size_t rows = mxGetM(mxArray.get());
-- 
2.43.0


From 654d0806f437f919fa0a7996d9feadff2547ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 82/89] fix: products of Python transformations lost the
 covariance of the right operand

---
 sm_python/src/exportTransformation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 5fe95ec..ef643c2 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -47,10 +47,10 @@ void exportTransformation()
       // the list in reverse order looking for a match. If the
       // Eigen export is first, the others are disabled.
       //.def(self * Eigen::Vector4d())
-    .def(self * UncertainTransformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
+    .def(self * UncertainTransformation())
     .def(self * HomogeneousPoint())
+    .def(self * UncertainHomogeneousPoint())
       .def(self * Eigen::Vector3d())
       //.def(self * Eigen::Vector4d())
       .def("checkTransformationIsValid", &Transformation::checkTransformationIsValid)
@@ -72,10 +72,10 @@ void exportTransformation()
     .def(init<const Eigen::Vector4d &, const Eigen::Vector3d>())
       .def("save", &saveobj<UncertainTransformation>)
       .def("load", &loadobj<UncertainTransformation>)
+    .def(self * Transformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
     .def(self * HomogeneousPoint())
-    .def(self * Transformation())
+    .def(self * UncertainHomogeneousPoint())
     //.def(self * Eigen::Vector3d())
     //.def(self * Eigen::Vector4d())
     .def("inverse",&UncertainTransformation::inverse)
-- 
2.43.0


From fe6ae0fa84c1a6f7c1855b89ec65d0936e499c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 83/89] fix: inverse() of a Python UncertainTransformation lost
 the covariance

---
 sm_python/src/exportTransformation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index ef643c2..2bdb59f 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -87,7 +87,6 @@ void exportTransformation()
     .def("t", &Transformation::t, return_value_policy<copy_const_reference>())
     .def("q", &Transformation::q, return_value_policy<copy_const_reference>())
     .def("T3x4", &Transformation::T3x4)
-    .def("inverse", &Transformation::inverse)
     .def("setIdentity", &Transformation::setIdentity)
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
-- 
2.43.0


From 1f7184d35f80fb15e3c8e67962252c17aca8ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 84/89] fix: pickling or copying a Python
 UncertainTransformation lost the covariance

---
 sm_python/src/exportTransformation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 2bdb59f..77d39dc 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -91,6 +91,7 @@ void exportTransformation()
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
     .def("S", &Transformation::S)
+      .def_pickle( sm::python::pickle_suite<UncertainTransformation>() )
 
     ;
 
-- 
2.43.0


From ee9be5686098e31b921a83221dbc0feb74be4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:37 +0000
Subject: [PATCH 85/89] fix: getChild() of a Python ConstPropertyTree always
 failed

---
 sm_python/src/exportPropertyTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/src/exportPropertyTree.cpp b/sm_python/src/exportPropertyTree.cpp
index d769dad..4924bd5 100755
--- a/sm_python/src/exportPropertyTree.cpp
+++ b/sm_python/src/exportPropertyTree.cpp
@@ -39,7 +39,7 @@ void exportPropertyTree() {
   using namespace sm;
 
   class_<ConstPropertyTree>("ConstPropertyTree", init<const ConstPropertyTree &, const std::string &>("ConstPropertyTree(ConstPropertyTree parent, string childNamespace)"))
-      .def("getChild", &PropertyTree::getChild)
+      .def("getChild", &ConstPropertyTree::getChild)
       .def("getInt", &getInt).def("getIntDefault", &getIntDefault)
       .def("getString", &getString)
       .def("getStringDefault", &getStringDefault)
-- 
2.43.0


From fb9c246035de4188a83046948ed4f98642925691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 86/89] fix: getLogger() failed in Python because Logger was
 not exported

---
 sm_python/src/Logging.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_python/src/Logging.cpp b/sm_python/src/Logging.cpp
index cbe65dd..8a1adc6 100644
--- a/sm_python/src/Logging.cpp
+++ b/sm_python/src/Logging.cpp
@@ -1,5 +1,7 @@
 #include <numpy_eigen/boost_python_headers.hpp>
+#include <boost/shared_ptr.hpp>
 #include <sm/logging.hpp>
+#include <sm/logging/Logger.hpp>
 #include <sm/logging/LoggingEvent.hpp>
 
 
@@ -50,6 +52,8 @@ void exportLogging()
         .value("Fatal",levels::Fatal)
         ;
 
+    class_<Logger, boost::shared_ptr<Logger>, boost::noncopyable>("Logger", no_init);
+
     // sm::logging::levels::Level getLevel();
     def("getLoggingLevel",&getLevel);
     // void setLevel( sm::logging::levels::Level level );        
-- 
2.43.0


From c9dcc45a93414b28e1462a5156f0f4d808aab355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:53 +0000
Subject: [PATCH 87/89] fix: the first use of a throttled log statement was
 lost while the clock was below its period

The time of the last print started at zero, so with a logger whose clock
starts near zero nothing was printed until a whole period had passed.
---
 sm_logging/include/sm/logging/console.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 1aeaec9..38535fa 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -33,6 +33,7 @@
 #define SMCONSOLE_SMCONSOLE_H
 
 #include <cstdio>
+#include <limits>
 #include <sstream>
 
 #include <cstdarg>
@@ -173,7 +174,7 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static std::atomic<double> last_hit(0.0);                       \
+        static std::atomic<double> last_hit(-std::numeric_limits<double>::infinity()); \
         double previous_hit = last_hit;                                 \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
@@ -193,7 +194,7 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static std::atomic<double> last_hit(0.0);                       \
+        static std::atomic<double> last_hit(-std::numeric_limits<double>::infinity()); \
         double previous_hit = last_hit;                                 \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
-- 
2.43.0


From 1229fcd94c42a3fd444a5a8ac7ce4adbc80461c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:42 +0000
Subject: [PATCH 88/89] fix: a logging value store listed the first of several
 children with the same key for each of them

---
 sm_value_store/src/VerboseValueStore.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sm_value_store/src/VerboseValueStore.cpp b/sm_value_store/src/VerboseValueStore.cpp
index 4ecb4d7..c09b569 100644
--- a/sm_value_store/src/VerboseValueStore.cpp
+++ b/sm_value_store/src/VerboseValueStore.cpp
@@ -26,6 +26,16 @@ std::string getValue(const ValueHandle<std::string> & v) {
   return std::string("\"") + v.get() + '"';
 }
 
+static KeyValueStorePair makeVerbose(const KeyValueStorePair & child, std::function<void(const std::string &)> log) {
+  const std::string key = child.getKey();
+  return KeyValueStorePair(key, std::make_shared<VerboseValueStore>(child.getValueStoreSharedPtr(), [log, key](const std::string &text){ log("child(" + key + "):" + text);}));
+}
+
+static ExtendibleKeyValueStorePair makeVerbose(const ExtendibleKeyValueStorePair & child, std::function<void(const std::string &)> log) {
+  const std::string key = child.getKey();
+  return ExtendibleKeyValueStorePair(key, std::make_shared<VerboseExtendibleValueStore>(child.getValueStoreSharedPtr(), [log, key](const std::string &text){ log("EC(" + key + "):" + text);}));
+}
+
 namespace internal {
 
 template <typename Base>
@@ -52,8 +62,7 @@ bool VerboseValueStoreT<Base>::hasKey(const std::string& path) const {
 template <typename Base>
 KeyValueStorePair VerboseValueStoreT<Base>::getChild(const std::string & key) const {
   log_(std::string(__func__) + "(" + key + ")");
-  auto log = log_;
-  return KeyValueStorePair(key, std::make_shared<VerboseValueStore>(vs_->getChild(key), [log, key](const std::string &text){ log("child(" + key + "):" + text);}));
+  return makeVerbose(vs_->getChild(key), log_);
 }
 
 template <typename Base>
@@ -79,8 +88,10 @@ template <typename Base>
 std::vector<KeyValueStorePair> VerboseValueStoreT<Base>::getChildren() const {
   log_(std::string(__func__) + "()");
   std::vector<KeyValueStorePair> verboseChildren;
+  // Not by getChild(key): several children can have the same key.
   for (const auto& c : vs_->getChildren()){
-    verboseChildren.push_back(this->getChild(c.getKey()));
+    log_("getChild(" + c.getKey() + ")");
+    verboseChildren.push_back(makeVerbose(c, log_));
   }
   return verboseChildren;
 }
@@ -112,13 +123,14 @@ ValueHandle<std::string> VerboseExtendibleValueStore::addString(const std::strin
 
 ExtendibleKeyValueStorePair VerboseExtendibleValueStore::getExtendibleChild(const std::string & key) const {
   log_(std::string(__func__) + "(" + key + ")");
-  return ExtendibleKeyValueStorePair(key, std::make_shared<VerboseExtendibleValueStore>(vs_->getExtendibleChild(key), [log=log_, key](const std::string &text){ log("EC(" + key + "):" + text);}));
+  return makeVerbose(vs_->getExtendibleChild(key), log_);
 }
 std::vector<ExtendibleKeyValueStorePair> VerboseExtendibleValueStore::getExtendibleChildren() const {
   log_(std::string(__func__) + "()");
   std::vector<ExtendibleKeyValueStorePair> verboseChildren;
   for (const auto& c : vs_->getExtendibleChildren()){
-    verboseChildren.push_back(this->getExtendibleChild(c.getKey()));
+    log_("getExtendibleChild(" + c.getKey() + ")");
+    verboseChildren.push_back(makeVerbose(c, log_));
   }
   return verboseChildren;
 }
-- 
2.43.0


From db5724a2e3ab13347dd84341b45ca33f18af691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:18 +0000
Subject: [PATCH 89/89] fix: log macros replaced variables of their arguments
 by their own and misread periods that are expressions

---
 sm_logging/include/sm/logging/console.hpp | 44 +++++++++++------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 38535fa..5dcd45d 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -67,18 +67,18 @@ namespace sm
 
 
 #define SMCONSOLE_DEFINE_LOCATION(cond, level, name)                    \
-    static ::sm::logging::LogLocation loc;                              \
+    static ::sm::logging::LogLocation loc___;                           \
     const ::sm::logging::Level level___ = level;                        \
-    if (SM_UNLIKELY(!loc._initialized))                                 \
+    if (SM_UNLIKELY(!loc___._initialized))                              \
     {                                                                   \
-        ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level___); \
+        ::sm::logging::g_logging_globals.initializeLogLocation(&loc___, name, level___); \
     }                                                                   \
     /* other threads may use this location with another level */        \
-    bool enabled = (SM_LIKELY(loc._level == level___) ? loc._loggerEnabled.load() : \
-        ::sm::logging::g_logging_globals.isLogLocationEnabled(&loc, level___)) && (cond);
+    bool enabled___ = (SM_LIKELY(loc___._level == level___) ? loc___._loggerEnabled.load() : \
+        ::sm::logging::g_logging_globals.isLogLocationEnabled(&loc___, level___)) && (cond);
 
 #define SMCONSOLE_PRINT_AT_LOCATION(...)                      \
-    ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), level___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
+    ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), level___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
 
 
 #define SMCONSOLE_PRINT_STREAM_AT_LOCATION(args)                        \
@@ -86,7 +86,7 @@ namespace sm
     {                                                                   \
         ::sm::logging::vectorstream ss___;                              \
          ss___ << args;                                                 \
-        ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), level___, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
+        ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), level___, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
     } while (0)
 
 
@@ -104,7 +104,7 @@ namespace sm
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(cond, level, name);   \
                                                         \
-        if (SM_UNLIKELY(enabled))                       \
+        if (SM_UNLIKELY(enabled___))                    \
         {                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
@@ -123,7 +123,7 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(cond, level, name);   \
-        if (SM_UNLIKELY(enabled))                       \
+        if (SM_UNLIKELY(enabled___))                    \
         {                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
@@ -139,8 +139,8 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static std::atomic<bool> hit(false);            \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
+        static std::atomic<bool> hit___(false);         \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(!hit___.exchange(true))) \
         {                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
@@ -156,8 +156,8 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static std::atomic<bool> hit(false);            \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true)))  \
+        static std::atomic<bool> hit___(false);         \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(!hit___.exchange(true))) \
         {                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
@@ -174,10 +174,10 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static std::atomic<double> last_hit(-std::numeric_limits<double>::infinity()); \
-        double previous_hit = last_hit;                                 \
-        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
+        static std::atomic<double> last_hit___(-std::numeric_limits<double>::infinity()); \
+        double previous_hit___ = last_hit___;                           \
+        double now___ = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(previous_hit___ + (rate) <= now___) && last_hit___.compare_exchange_strong(previous_hit___, now___)) \
         {                                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
@@ -194,10 +194,10 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static std::atomic<double> last_hit(-std::numeric_limits<double>::infinity()); \
-        double previous_hit = last_hit;                                 \
-        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(previous_hit + rate <= now) && last_hit.compare_exchange_strong(previous_hit, now)) \
+        static std::atomic<double> last_hit___(-std::numeric_limits<double>::infinity()); \
+        double previous_hit___ = last_hit___;                           \
+        double now___ = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(previous_hit___ + (rate) <= now___) && last_hit___.compare_exchange_strong(previous_hit___, now___)) \
         {                                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
@@ -215,7 +215,7 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        if (SM_UNLIKELY(enabled) )                                      \
+        if (SM_UNLIKELY(enabled___) )                                   \
         {                                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                                               \
-- 
2.43.0

