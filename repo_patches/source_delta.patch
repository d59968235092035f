From d1c2ef1556cbb1997eabed28d2e9db737ee70269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 001/138] fix: JobQueue::stop and join could leave a worker
 waiting for ever

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index 4efc256..db7e9f4 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -30,14 +30,18 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        // The flag must change under the lock. Otherwise a worker that has just
+        // checked it misses the notification and sleeps for ever.
+        boost::mutex::scoped_lock lck(mutex_);
         killWorkers_ = true;
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
-        work_->join_all();
+        if(work_)
+            work_->join_all();
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 5d0e693b62c09c4478d996abbe808789491b0767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 002/138] fix: JobQueue was destroyed under workers that had
 not yet entered or left their loop

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index db7e9f4..aedc140 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,9 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        // Wait for the threads themselves: one that was created but has not
+        // entered its loop yet, or is just leaving it, still uses this object.
+        join();
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
-- 
2.43.0


From 5ae8c91c7671facee39c26bbdc8834e5017b7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 003/138] fix: Mutex::tryLock took a mutex that another thread
 holds

---
 .../aslam_incremental_calibration/src/base/Mutex.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
index 4c6adfc..7a96767 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
@@ -151,7 +151,7 @@ namespace aslam {
       }
       else {
         if (mNumLocks)
-          result = safeWait(*this, wait);
+          result = (wait > 0.0) && safeWait(*this, wait);
         if (result) {
           ++mNumLocks;
           mOwner = pthread_self();
-- 
2.43.0


From d5aa4693ee605fbd188bd09f89b906ddc75f289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 004/138] fix: Mutex::waitUnlock waited for ever on a mutex
 that is free

---
 .../aslam_incremental_calibration/src/base/Mutex.cpp           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
index 7a96767..b756f1c 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
@@ -112,7 +112,8 @@ namespace aslam {
       int ret = pthread_mutex_lock(&mIdentifier);
       if (ret)
         throw SystemException(ret, "Mutex::waitUnlock()::pthread_mutex_lock()");
-      const bool result = safeWait(*this, seconds);
+      const bool result = !mNumLocks ||
+        ((seconds > 0.0) && safeWait(*this, seconds));
       if (result)
         ((Mutex*)this)->signal();
       ret = pthread_mutex_unlock(&mIdentifier);
-- 
2.43.0


From 5b49363348e02bcc0bce81d5cdba634031437837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 005/138] fix: a triggered Thread interrupted while it works
 waited for its trigger for ever

---
 .../aslam_incremental_calibration/src/base/Thread.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
index fc9dff3..7fb92df 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
@@ -334,7 +334,9 @@ namespace aslam {
         mTimer.start();
         process();
         mMutex.lock();
-        mTrigger.wait(mMutex, mTimer.getLeft(mCycle));
+        // an interrupt during process() has already sent its signal
+        if (!mCancel)
+          mTrigger.wait(mMutex, mTimer.getLeft(mCycle));
         mMutex.unlock();
         mTimer.stop();
         mMutex.lock();
-- 
2.43.0


From 73425f2e27461e4d76c43a8003c7fb0054eeae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 006/138] fix: a wait of no time for a busy Thread reported
 that it had ended

---
 .../aslam_incremental_calibration/src/base/Thread.cpp           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
index 7fb92df..a323439 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
@@ -303,6 +303,8 @@ namespace aslam {
         if (safeIsBusy())
           result = mCleaned.wait(mMutex, seconds);
       }
+      else
+        result = !safeIsBusy();
       return result;
     }
 
-- 
2.43.0


From ddff092eebd40462e1a0a4caf09d2500a611e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 007/138] fix: times and durations could hold a whole second of
 nanoseconds or negative nanoseconds

---
 .../aslam_time/include/aslam_time/Time.hpp    | 10 ++++++++--
 .../aslam_time/implementation/Duration.hpp    | 19 ++++++++-----------
 aslam_cv/aslam_time/src/duration.cpp          |  2 +-
 aslam_cv/aslam_time/src/time.cpp              |  2 +-
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
index 647a676..86671fa 100644
--- a/aslam_cv/aslam_time/include/aslam_time/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
@@ -153,8 +153,14 @@ class TimeBase {
   }
   ;
   T& fromSec(double t) {
-    sec = (uint32_t) floor(t);
-    nsec = (uint32_t) boost::math::round((t - sec) * 1e9);
+    const double sec_part = floor(t);
+    if (!(sec_part >= 0 && sec_part <= UINT_MAX))
+      throw std::runtime_error("Time is out of dual 32-bit range");
+    int64_t sec64 = (int64_t) sec_part;
+    int64_t nsec64 = (int64_t) boost::math::round((t - sec_part) * 1e9);
+    normalizeSecNSecUnsigned(sec64, nsec64);
+    sec = (uint32_t) sec64;
+    nsec = (uint32_t) nsec64;
     return *static_cast<T*>(this);
   }
 
diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index 5cd6611..bdffba9 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -51,17 +51,14 @@ DurationBase<T>::DurationBase(int32_t _sec, int32_t _nsec)
 
 template<class T>
 T& DurationBase<T>::fromSec(double d) {
-#ifdef HAVE_TRUNC
-  sec = (int32_t)trunc(d);
-#else
-  // (morgan: why doesn't win32 provide trunc? argh. hacked this together
-  // without much thought. need to test this conversion.
-  if (d >= 0.0)
-    sec = (int32_t) floor(d);
-  else
-    sec = (int32_t) floor(d) + 1;
-#endif
-  nsec = (int32_t)((d - (double) sec) * 1000000000);
+  const double sec_part = floor(d);
+  if (!(sec_part >= INT_MIN && sec_part <= INT_MAX))
+    throw std::runtime_error("Duration is out of dual 32-bit range");
+  int64_t sec64 = (int64_t) sec_part;
+  int64_t nsec64 = (int64_t) ((d - sec_part) * 1e9 + 0.5);
+  normalizeSecNSecSigned(sec64, nsec64);
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
   return *static_cast<T*>(this);
 }
 
diff --git a/aslam_cv/aslam_time/src/duration.cpp b/aslam_cv/aslam_time/src/duration.cpp
index 92cfa63..0bb8e31 100644
--- a/aslam_cv/aslam_time/src/duration.cpp
+++ b/aslam_cv/aslam_time/src/duration.cpp
@@ -7,7 +7,7 @@ void normalizeSecNSecSigned(int64_t& sec, int64_t& nsec) {
   int64_t nsec_part = nsec;
   int64_t sec_part = sec;
 
-  while (nsec_part > 1000000000L) {
+  while (nsec_part >= 1000000000L) {
     nsec_part -= 1000000000L;
     ++sec_part;
   }
diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 42a5527..fb15cba 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -379,7 +379,7 @@ void normalizeSecNSecUnsigned(int64_t& sec, int64_t& nsec) {
     --sec_part;
   }
 
-  if (sec_part < 0 || sec_part > INT_MAX)
+  if (sec_part < 0 || sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec = sec_part;
-- 
2.43.0


From d6a339980f5939e9f0a619d7ffad27bf3b642227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:21 +0000
Subject: [PATCH 008/138] fix: times and durations silently wrapped when a
 result left their range

---
 .../aslam_time/implementation/Duration.hpp    | 20 +++++++++-------
 .../aslam_time/implementation/Time.hpp        | 23 ++++++++++++-------
 aslam_cv/aslam_time/src/time.cpp              |  2 +-
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index bdffba9..d596f82 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -64,17 +64,19 @@ T& DurationBase<T>::fromSec(double d) {
 
 template<class T>
 T& DurationBase<T>::fromNSec(int64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
-
-  normalizeSecNSecSigned(sec, nsec);
+  int64_t sec64 = t / 1000000000;
+  int64_t nsec64 = t % 1000000000;
+  normalizeSecNSecSigned(sec64, nsec64);
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
 
 template<class T>
 T DurationBase<T>::operator+(const T &rhs) const {
-  return T(sec + rhs.sec, nsec + rhs.nsec);
+  T t;
+  return t.fromNSec(toNSec() + rhs.toNSec());
 }
 
 template<class T>
@@ -84,12 +86,14 @@ T DurationBase<T>::operator*(double scale) const {
 
 template<class T>
 T DurationBase<T>::operator-(const T &rhs) const {
-  return T(sec - rhs.sec, nsec - rhs.nsec);
+  T t;
+  return t.fromNSec(toNSec() - rhs.toNSec());
 }
 
 template<class T>
 T DurationBase<T>::operator-() const {
-  return T(-sec, -nsec);
+  T t;
+  return t.fromNSec(-toNSec());
 }
 
 template<class T>
@@ -100,7 +104,7 @@ T& DurationBase<T>::operator+=(const T &rhs) {
 
 template<class T>
 T& DurationBase<T>::operator-=(const T &rhs) {
-  *this += (-rhs);
+  *this = *this - rhs;
   return *static_cast<T*>(this);
 }
 
diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
index 6d49211..47fac97 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
@@ -60,23 +60,30 @@ namespace aslam {
 
 template<class T, class D>
 T& TimeBase<T, D>::fromNSec(uint64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
-
-  normalizeSecNSec(sec, nsec);
+  uint64_t sec64 = 0;
+  uint64_t nsec64 = t;
+  normalizeSecNSec(sec64, nsec64);
+  sec = (uint32_t) sec64;
+  nsec = (uint32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
 
 template<class T, class D>
 D TimeBase<T, D>::operator-(const T &rhs) const {
-  return D((int32_t) sec - (int32_t) rhs.sec,
-           (int32_t) nsec - (int32_t) rhs.nsec);  // carry handled in ctor
+  D d;
+  return d.fromNSec((int64_t) toNSec() - (int64_t) rhs.toNSec());
 }
 
 template<class T, class D>
 T TimeBase<T, D>::operator-(const D &rhs) const {
-  return *static_cast<const T*>(this) + (-rhs);
+  int64_t sec_diff = (int64_t) sec - (int64_t) rhs.sec;
+  int64_t nsec_diff = (int64_t) nsec - (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecUnsigned(sec_diff, nsec_diff);
+
+  return T((uint32_t) sec_diff, (uint32_t) nsec_diff);
 }
 
 template<class T, class D>
@@ -99,7 +106,7 @@ T& TimeBase<T, D>::operator+=(const D &rhs) {
 
 template<class T, class D>
 T& TimeBase<T, D>::operator-=(const D &rhs) {
-  *this += (-rhs);
+  *this = *this - rhs;
   return *static_cast<T*>(this);
 }
 
diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index fb15cba..69cb03c 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -349,7 +349,7 @@ void normalizeSecNSec(uint64_t& sec, uint64_t& nsec) {
   uint64_t nsec_part = nsec % 1000000000UL;
   uint64_t sec_part = nsec / 1000000000UL;
 
-  if (sec_part > UINT_MAX)
+  if (sec + sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec += sec_part;
-- 
2.43.0


From 01673be95cf2382f07e7ca7d6d262a5c4144789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:21 +0000
Subject: [PATCH 009/138] fix: negative durations were printed as if their
 nanoseconds counted backwards

---
 aslam_cv/aslam_time/src/time.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 69cb03c..3359972 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -256,11 +256,24 @@ std::ostream& operator<<(std::ostream& os, const Time &rhs) {
   return os;
 }
 
-std::ostream& operator<<(std::ostream& os, const Duration& rhs) {
+namespace {
+// The nanoseconds of a negative duration count forwards from its seconds.
+template<class T>
+std::ostream& printDuration(std::ostream& os, const T& rhs) {
   boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
+  int64_t nsec = rhs.toNSec();
+  if (nsec < 0) {
+    os << "-";
+    nsec = -nsec;
+  }
+  os << nsec / 1000000000 << "." << std::setw(9) << std::setfill('0') << nsec % 1000000000;
   return os;
 }
+}
+
+std::ostream& operator<<(std::ostream& os, const Duration& rhs) {
+  return printDuration(os, rhs);
+}
 
 bool Time::sleepUntil(const Time& end) {
   if (Time::useSystemTime()) {
@@ -336,9 +349,7 @@ WallTime WallTime::now() {
 }
 
 std::ostream &operator<<(std::ostream& os, const WallDuration& rhs) {
-  boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
-  return os;
+  return printDuration(os, rhs);
 }
 
 bool WallDuration::sleep() const {
-- 
2.43.0


From 691997af30d2610d759edd8cfad19362326c5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:21 +0000
Subject: [PATCH 010/138] fix: TimestampCorrector read past its hull after the
 hull had shrunk to two points

---
 .../include/sm_timing/implementation/TimestampCorrector.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index a795242..fb986e2 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -57,6 +57,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   }
   else
   {
+    // The hull may have had more points before.
+    _midpointSegmentIndex = 0;
     // and if there aren't enough data points, just return the sampled local time.
     return localTime;
   }
-- 
2.43.0


From 3210b012fcd56d2edfee0da938d8e6d09db16973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 011/138] fix: portable binary archives took every machine for
 big-endian and could not be read back

---
 Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp | 4 ++--
 Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
index 3a3d0b1..b30e4e9 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
@@ -39,12 +39,12 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
         );
 
     char * cptr = reinterpret_cast<char *>(& l);
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         cptr += (sizeof(boost::intmax_t) - size);
     #endif
     this->primitive_base_t::load_binary(cptr, size);
 
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         if(m_flags & endian_little)
     #else
         if(m_flags & endian_big)
diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
index 717dff3..8541392 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
@@ -49,7 +49,7 @@ portable_binary_oarchive::save_impl(
     else
         ll = l;
     char * cptr = reinterpret_cast<char *>(& ll);
-    #ifdef BOOST_ENDIAN_BIG_BYTE
+    #if BOOST_ENDIAN_BIG_BYTE
         cptr += (sizeof(boost::intmax_t) - size);
         if(m_flags & endian_little)
             reverse_bytes(size, cptr);
-- 
2.43.0


From d50016983b275330ecfb748d9902866153c8b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 012/138] fix: portable binary archives looped for ever writing
 the smallest 64-bit integer

---
 Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp | 4 ++--
 Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
index b30e4e9..a679d2f 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_iarchive.cpp
@@ -33,7 +33,7 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
     if(negative)
         size = -size;
 
-    if(size > maxsize)
+    if(size < 0 || size > maxsize)
         boost::serialization::throw_exception(
             portable_binary_iarchive_exception()
         );
@@ -52,7 +52,7 @@ portable_binary_iarchive::load_impl(boost::intmax_t & l, char maxsize){
             reverse_bytes(size, cptr);
 
     if(negative)
-        l = -l;
+        l = - static_cast<boost::uintmax_t>(l);
 }
 
 void
diff --git a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
index 8541392..0099c19 100755
--- a/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
+++ b/Schweizer-Messer/sm_boost/src/portable_binary_oarchive.cpp
@@ -28,10 +28,11 @@ portable_binary_oarchive::save_impl(
         return;
     }
 
-    boost::intmax_t ll;
+    // unsigned: the magnitude of the smallest integer has no signed form
+    boost::uintmax_t ll;
     bool negative = (l < 0);
     if(negative)
-        ll = -l;
+        ll = - static_cast<boost::uintmax_t>(l);
     else
         ll = l;
 
@@ -45,7 +46,7 @@ portable_binary_oarchive::save_impl(
     );
 
     if(negative)
-        ll = -l;
+        ll = - static_cast<boost::uintmax_t>(l);
     else
         ll = l;
     char * cptr = reinterpret_cast<char *>(& ll);
-- 
2.43.0


From 21e6ef8ce3c6a4dbf413014111b803553e0ecb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 013/138] fix: ptimeToTimeval returned nothing

---
 Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp b/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
index 3831f58..e4d1782 100644
--- a/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
+++ b/Schweizer-Messer/sm_boost/include/sm_boost/ptime.hpp
@@ -5,7 +5,7 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
@@ -13,10 +13,8 @@ namespace sm {
         boost::posix_time::time_duration duration( time - UNIX_EPOCH );
         timeval tv;
         tv.tv_sec = duration.total_seconds();
-        tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        tv.tv_usec = duration.total_microseconds() % 1000000;
+        return tv;
     }
 
     
-- 
2.43.0


From a6d5a7480e4cff6b3ed97d47a41aab77c119287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 014/138] fix: loading an empty matrix with a fixed number of
 rows read data that was not saved

---
 .../sm_eigen/include/sm_eigen/serialization.hpp             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
index 22b3283..da0c1f5 100755
--- a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
+++ b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From f5e94bd60861dd916a8c2b003f4a5e3ab46572a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 015/138] fix: PropertyTree::doesKeyExist threw for every key

---
 .../sm_property_tree/src/BoostPropertyTreeImplementation.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index be7c99f..b23e019 100755
--- a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -86,7 +86,7 @@ namespace sm {
 
   bool BoostPropertyTreeImplementation::doesKeyExist(const std::string & key) const
   {
-    boost::optional<std::string> val = _ptree.get<std::string>(boost::property_tree::ptree::path_type(key.c_str(),'/'));
+    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(key.substr(1),'/'));
     
     return (bool)val;
   }
-- 
2.43.0


From 8c17e861c821aa4691165a8a55a24bf020cb4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 016/138] fix: solveQuadratic gave a NaN for a double solution
 at zero

---
 Schweizer-Messer/sm_common/include/sm_common/maths.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/maths.hpp b/Schweizer-Messer/sm_common/include/sm_common/maths.hpp
index 9eea956..a7ed35a 100755
--- a/Schweizer-Messer/sm_common/include/sm_common/maths.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/maths.hpp
@@ -34,6 +34,10 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    // b and c are zero: so are both solutions
+    if(n == 0.0)
+      return std::make_pair(0.0,0.0);
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From 3ad080f015443a2f83def1babd65b9a7e58b9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 017/138] fix: replacing a character by itself never ended and
 a skipped first character was searched again

---
 .../sm_common/include/sm_common/string_routines.hpp    | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp b/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp
index ef65196..38900ee 100755
--- a/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/string_routines.hpp
@@ -15,12 +15,10 @@ namespace sm
         while( (pos = str.find(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos++;
-            }
             else
                 str[pos] = replacement;
+            pos++;
         }
         return str;
     }
@@ -33,12 +31,12 @@ namespace sm
         while( (pos = str.rfind(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos--;
-            }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From 611e75c84fb40693d72e122ce22cb7f38849ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 018/138] fix: HashId::fromHexString accepted strings that are
 not hexadecimal

---
 Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp b/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp
index d3a5010..2393ca8 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/hash_id.hpp
@@ -59,6 +59,9 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       unsigned int integerValue;
       std::istringstream ss(std::string(hexString, 2*i, 2));
-- 
2.43.0


From be7d7b9d722a7e7043fea958bfd0f5deeb9010de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 019/138] fix: MatrixArchive::clear(name) left strings in the
 archive

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index a9e8508..5f718d3 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From ea901c7dfe28c6e6613dc7b60cdc5b3edc6b87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 020/138] fix: MatrixArchive::sizeMatrices counted the strings

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 5f718d3..4c673f0 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -175,7 +175,7 @@ namespace sm
   }
   size_t MatrixArchive::sizeMatrices() const
   {
-    return m_strings.size();
+    return m_values.size();
   }
 
   MatrixArchive::matrix_map_t::const_iterator MatrixArchive::begin() const
-- 
2.43.0


From 04d77be5b4b3eba75d6b3a4d439f24a2beaa6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 021/138] fix: MatrixArchive could hold a string and a matrix
 of one name, and matrices of invalid names

---
 .../include/sm_matrix_archive/MatrixArchive.hpp              | 1 +
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
index 5aec5ba..879e5a0 100644
--- a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
+++ b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 4c673f0..916c791 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -38,6 +38,7 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -65,6 +66,7 @@ namespace sm
 
   Eigen::MatrixXd & MatrixArchive::createMatrix(std::string const & matrixName, int rows, int cols, bool overwriteExisting)
   {
+    validateName(matrixName, SM_SOURCE_FILE_POS);
     if(!overwriteExisting){
       matrix_map_t::const_iterator it = m_values.find(matrixName);
       if(it != m_values.end())
@@ -73,6 +75,7 @@ namespace sm
       }
     }
 
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     m_values[matrixName].resize(rows, cols);
     return val;
@@ -424,9 +427,11 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
+            m_strings.erase(name);
             m_values[name] = matrix;
             break;
           case STRING:
+            m_values.erase(name);
             m_strings[name] = valueString;
             break;
         }
-- 
2.43.0


From 3463d8f82493d90dfa515a2e4f3d6b06b6fb0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 022/138] fix: MatrixArchive::append appended nothing

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 916c791..caf8684 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -441,10 +441,14 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 4b2899aaff5aed53d464055c843ce754732f429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 023/138] fix: MatrixArchive did not notice that the end of a
 file could not be written

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index caf8684..6f3a070 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -369,6 +369,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
@@ -449,6 +450,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 31d3580561c2c6134fa3514608c6d812a6bf90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:18 +0000
Subject: [PATCH 024/138] fix: MatrixArchive took the missing end of a
 truncated file for data

---
 .../sm_matrix_archive/src/MatrixArchive.cpp   | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 6f3a070..89e1523 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -6,6 +6,15 @@
 namespace sm 
 {
 
+  namespace {
+    // A truncated file must not be taken for data.
+    void readBytes(std::istream & fin, char * data, std::streamsize size)
+    {
+      fin.read(data, size);
+      SM_ASSERT_EQ(MatrixArchiveException, fin.gcount(), size, "The archive ends within a block");
+    }
+  } // namespace
+
   const size_t MatrixArchive::s_fixedNameSize = 32;
   const char MatrixArchive::s_magicCharStartAMatrixBlock = 'A';
   const char MatrixArchive::s_magicCharStartAStringBlock = 'S';
@@ -239,17 +248,17 @@ namespace sm
   {
     // 4 byte rows
     boost::uint32_t rows;
-    fin.read(reinterpret_cast<char *>(&rows),4);
+    readBytes(fin, reinterpret_cast<char *>(&rows),4);
     // 4 byte columns
     boost::uint32_t cols;
-    fin.read(reinterpret_cast<char *>(&cols),4);
+    readBytes(fin, reinterpret_cast<char *>(&cols),4);
     
     // data
 
     matrix.resize(rows,cols);
     std::streamsize dataSize = rows * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
-    fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    readBytes(fin, reinterpret_cast<char *>(matrix.data()),dataSize);
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -273,18 +282,18 @@ namespace sm
   {
     // 4 byte rows
     boost::uint32_t stringSize;
-    fin.read(reinterpret_cast<char *>(&stringSize),4);
+    readBytes(fin, reinterpret_cast<char *>(&stringSize),4);
 
     // data
     stringValue.resize(stringSize);
-    fin.read(&stringValue[0], stringSize);
+    readBytes(fin, &stringValue[0], stringSize);
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
   {
     char start, end;
     // start character
-    fin.read(&start,1);
+    readBytes(fin, &start,1);
     BlockType blockType;
     if(start == s_magicCharStartAStringBlock){
       blockType = STRING;
@@ -297,7 +306,7 @@ namespace sm
     // 64 character name
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
-    fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    readBytes(fin, nameBuffer,(std::streamsize)s_fixedNameSize);
     name = nameBuffer;
     boost::trim(name);
 
@@ -311,7 +320,7 @@ namespace sm
     }
 
     // end character
-    fin.read(&end,1);
+    readBytes(fin, &end,1);
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 18560a0c659bb1eb4cfea614d80d2e1e4c3590af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:18 +0000
Subject: [PATCH 025/138] fix: MatrixArchive wrote only a part of a matrix of 4
 GiB or more

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 89e1523..fcf9a37 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -230,7 +230,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = std::streamsize(rows) * cols * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
@@ -256,7 +256,7 @@ namespace sm
     // data
 
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = std::streamsize(rows) * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     readBytes(fin, reinterpret_cast<char *>(matrix.data()),dataSize);
   }
-- 
2.43.0


From 3912f3d3aedfefbf272ed35311552eb3adf687e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 026/138] fix: a constant PropertyTree stored the default
 values it was asked with

---
 .../include/sm_property_tree/PropertyTree.hpp             | 2 ++
 Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp    | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_property_tree/include/sm_property_tree/PropertyTree.hpp b/Schweizer-Messer/sm_property_tree/include/sm_property_tree/PropertyTree.hpp
index 504f5f7..c55aafc 100755
--- a/Schweizer-Messer/sm_property_tree/include/sm_property_tree/PropertyTree.hpp
+++ b/Schweizer-Messer/sm_property_tree/include/sm_property_tree/PropertyTree.hpp
@@ -127,6 +127,8 @@ namespace sm {
     std::string _namespace;
     std::string buildQualifiedKeyName(const std::string & key) const;
     boost::shared_ptr<PropertyTreeImplementation> _imp;
+    // A constant tree must not store default values.
+    const PropertyTreeImplementation & constImp() const { return *_imp; }
   };
 
 } // namespace sm
diff --git a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
index b1d4f88..e7d107b 100755
--- a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
@@ -59,7 +59,7 @@ namespace sm {
   double PropertyTree::getDouble(const std::string & key, double defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-      return _imp->getDouble(buildQualifiedKeyName(key), defaultValue);
+      return constImp().getDouble(buildQualifiedKeyName(key), defaultValue);
   }
 
   double PropertyTree::getDouble(const std::string & key, double defaultValue)
@@ -77,7 +77,7 @@ namespace sm {
   int PropertyTree::getInt(const std::string & key, int defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getInt(buildQualifiedKeyName(key),defaultValue);
+    return constImp().getInt(buildQualifiedKeyName(key),defaultValue);
   }
 
   int PropertyTree::getInt(const std::string & key, int defaultValue)
@@ -95,7 +95,7 @@ namespace sm {
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getBool(buildQualifiedKeyName(key), defaultValue);
+    return constImp().getBool(buildQualifiedKeyName(key), defaultValue);
   }
 
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) 
@@ -114,7 +114,7 @@ namespace sm {
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getString(buildQualifiedKeyName(key), defaultValue);
+    return constImp().getString(buildQualifiedKeyName(key), defaultValue);
   }
 
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) 
-- 
2.43.0


From 69fbd4d7b8d3bdd370ab8e0ed935f42cb07e3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 027/138] fix: saving to a file did not notice that the end of
 the file could not be written

---
 .../include/sm_boost/serialization.hpp        | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp b/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp
index 8297d78..a577f13 100755
--- a/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp
+++ b/Schweizer-Messer/sm_boost/include/sm_boost/serialization.hpp
@@ -21,9 +21,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
     
-            oa << object;
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
@@ -44,9 +48,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
+            {
+                ::boost::archive::text_oarchive oa(ofs);
     
-            oa << object;
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
@@ -67,13 +75,17 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
 
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
 
         }
 
-- 
2.43.0


From 741c8d3a69d1f51e0c98b4b9771b05d8abfa0755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 028/138] fix: round was wrong next to one half and for large
 odd numbers

---
 Schweizer-Messer/sm_common/include/sm_common/round.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/round.hpp b/Schweizer-Messer/sm_common/include/sm_common/round.hpp
index 6e8860e..d3d5b1a 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/round.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/round.hpp
@@ -1,16 +1,18 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        return std::round(number);
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
-- 
2.43.0


From f5be028fe374545e63c5c5bfbbf7937a0a7bb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 029/138] fix: lrint of a double was limited to the range of
 int

---
 Schweizer-Messer/sm_common/include/sm_common/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/round.hpp b/Schweizer-Messer/sm_common/include/sm_common/round.hpp
index d3d5b1a..abcaad3 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/round.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/round.hpp
@@ -27,7 +27,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From 499378357949811b18de76dbe8f886c86aaa5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 030/138] fix: BlockCholeskyLinearSystemSolver did not take the
 whole conditioner off the Hessian again

solveSystem and computeCovarianceBlocks add the square of the conditioner
to the diagonal but subtracted the conditioner itself, so every further
solution without rebuilding the system was wrong.
---
 .../aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 3dc73cf..38f277c 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -73,6 +73,7 @@ namespace aslam {
 
     bool BlockCholeskyLinearSystemSolver::solveSystem(Eigen::VectorXd& outDx)
     {
+      Eigen::VectorXd diagonal(_H._M.rows());
       if (_useDiagonalConditioner) {
         Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
@@ -80,6 +81,7 @@ namespace aslam {
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
           SM_ASSERT_EQ_DBG(Exception, block.rows(), block.cols(), "Diagonal blocks are square...right?");
+          diagonal.segment(rowBase, block.rows()) = block.diagonal();
           block.diagonal() += d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
@@ -92,7 +94,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() = diagonal.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
@@ -123,6 +125,7 @@ namespace aslam {
     {
       // Not sure why I have to do this.
       //_solver->init();
+      Eigen::VectorXd diagonal(_H._M.rows());
       if (_useDiagonalConditioner) {
         Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
@@ -130,6 +133,7 @@ namespace aslam {
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
           SM_ASSERT_EQ_DBG(Exception, block.rows(), block.cols(), "Diagonal blocks are square...right?");
+          diagonal.segment(rowBase, block.rows()) = block.diagonal();
           block.diagonal() += d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
@@ -141,7 +145,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() = diagonal.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
-- 
2.43.0


From 968d12179b040c2e999d894c6eeaa2c26766c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 031/138] fix: DenseQrLinearSystemSolver used an uninitialized
 flag to decide whether to condition the system

---
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index 580e199..a4a6680 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -24,8 +24,9 @@ namespace aslam {
       return &_J;
     }
 
-  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool /* useDiagonalConditioner */)
+  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool useDiagonalConditioner)
     {
+      _useDiagonalConditioner = useDiagonalConditioner;
       // \todo Verify that this is similar to the "reserve()" feature in a standard vector.
       _J._M.resize(_JRows, _JCols);
     }
-- 
2.43.0


From 08d45eded33f96fdc4983ff45af95554e7816276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 032/138] fix: the block Cholesky solver crashed on a matrix
 without any entry instead of failing

---
 .../aslam_sparse_block_matrix/linear_solver_cholmod.h    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h
index e18139b..c659caa 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/linear_solver_cholmod.h
@@ -75,7 +75,8 @@ class LinearSolverCholmod : public LinearSolver<MatrixType>
 
       if (! _cholmodFactor) {
         computeSymbolicDecomposition(A);
-        assert(_cholmodFactor && "Symbolic cholesky failed");
+        if (! _cholmodFactor) // e.g. there is nothing in the matrix
+          return false;
       }
       //double t=get_time();
 
@@ -118,7 +119,8 @@ class LinearSolverCholmod : public LinearSolver<MatrixType>
 
       if (! _cholmodFactor) {
         computeSymbolicDecomposition(A);
-        assert(_cholmodFactor && "Symbolic cholesky failed");
+        if (! _cholmodFactor) // e.g. there is nothing in the matrix
+          return false;
       }
 
       if (! blocks){
@@ -168,7 +170,8 @@ class LinearSolverCholmod : public LinearSolver<MatrixType>
 
       if (! _cholmodFactor) {
         computeSymbolicDecomposition(A);
-        assert(_cholmodFactor && "Symbolic cholesky failed");
+        if (! _cholmodFactor) // e.g. there is nothing in the matrix
+          return false;
       }
 
       cholmod_factorize(_cholmodSparse, _cholmodFactor, &_cholmodCommon);
-- 
2.43.0


From a12fd8a14f5b675f7ae775bce5789bd395ece1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 033/138] fix: BlockCholeskyLinearSystemSolver::rhsJtJrhs
 ignored the lower triangular part of the Hessian

It made the steepest descent step of the dog leg policy wrong.
---
 .../src/BlockCholeskyLinearSystemSolver.cpp       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 38f277c..d9fde09 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -174,9 +174,18 @@ namespace aslam {
       
       
     double BlockCholeskyLinearSystemSolver::rhsJtJrhs() {
-        Eigen::VectorXd JtJrhs;
-        _H.rightMultiply(_rhs, JtJrhs);
-        return _rhs.dot(JtJrhs);
+        // Only the upper triangular part of the Hessian is stored.
+        double sum = 0.0;
+        for (size_t c = 0; c < _H._M.blockCols().size(); ++c) {
+          const SparseBlockMatrix::IntBlockMap& col = _H._M.blockCols()[c];
+          for (SparseBlockMatrix::IntBlockMap::const_iterator it = col.begin(); it != col.end(); ++it) {
+            const int r = it->first;
+            const double v = _rhs.segment(_H._M.rowBaseOfBlock(r), _H._M.rowsOfBlock(r)).dot(
+                *it->second * _rhs.segment(_H._M.colBaseOfBlock(c), _H._M.colsOfBlock(c)));
+            sum += r == (int)c ? v : 2.0 * v;
+          }
+        }
+        return sum;
     }
       
 
-- 
2.43.0


From 84b129aad7b27744b7467dc24a5a62b43e75e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 034/138] fix: DenseQrLinearSystemSolver mixed the Jacobian of
 the system with the error of a later evaluation

After a step that was evaluated and reverted, the next solution without
rebuilding the system (Levenberg-Marquardt with a larger lambda) used the
errors of the reverted state.
---
 .../backend/DenseQrLinearSystemSolver.hpp              |  1 +
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp    | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
index d57f106..849141d 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
@@ -54,6 +54,7 @@ namespace aslam {
       /// \brief the dense Jacobian matrix
       DenseMatrix _J;
 
+      /// \brief the error vector the system was built with
       Eigen::VectorXd _truncated_e;
 
       /// Options
diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index a4a6680..934c3db 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -36,6 +36,8 @@ namespace aslam {
       _J._M.setZero();
       setupThreadedJob(boost::bind(&DenseQrLinearSystemSolver::evaluateJacobians, this, _1, _2, _3, _4), nThreads, useMEstimator);
       _rhs = _J._M.transpose() * _e;
+      // _e follows every evaluation of the error, the system stays.
+      _truncated_e = _e;
     }
 
 
@@ -46,14 +48,14 @@ namespace aslam {
         _J._M.conservativeResize(_JRows + _JCols, Eigen::NoChange);
         _J._M.bottomRows(_JCols) = _diagonalConditioner.asDiagonal();
         // Append zeros to make the sizes match.
-        _e.conservativeResize(_JRows + _JCols);
-        _e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
+        _truncated_e.conservativeResize(_JRows + _JCols);
+        _truncated_e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
       }
-      outDx = _J._M.colPivHouseholderQr().solve(_e);
+      outDx = _J._M.colPivHouseholderQr().solve(_truncated_e);
       if (_useDiagonalConditioner) {
         // Remove the diagonal
         _J._M.conservativeResize(_JRows, Eigen::NoChange);
-        _e.conservativeResize(_JRows);
+        _truncated_e.conservativeResize(_JRows);
       }
       return true;
     }
-- 
2.43.0


From f5f50118bdee8c109c37e25c320921c2e304c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 035/138] fix: SparseQrLinearSystemSolver mixed the Jacobian of
 the system with the error of a later evaluation

---
 .../aslam_backend/backend/SparseQrLinearSystemSolver.hpp   | 2 ++
 .../aslam_backend/src/SparseQrLinearSystemSolver.cpp       | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
index 3e4f794..d43bcae 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
@@ -65,6 +65,8 @@ namespace aslam {
       Cholmod<index_t> _cholmod;
       cholmod_sparse _cholmodLhs;
       cholmod_dense  _cholmodRhs;
+      /// \brief the error vector the system was built with
+      Eigen::VectorXd _systemE;
 #ifndef QRSOLVER_DISABLED
       SuiteSparseQR_factorization<double>* _factor;
       CompressedColumnMatrix<index_t> _R;
diff --git a/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
index a54ab3c..42874e6 100644
--- a/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
@@ -42,10 +42,11 @@ namespace aslam {
       if (_useDiagonalConditioner) {
         J_transpose.pushConstantDiagonalBlock(1.0);
       }
+      _systemE = _e;
       // View this matrix as a sparse matrix.
       // These views should remain valid for the lifetime of the object.
       J_transpose.getView(&_cholmodLhs);
-      _cholmod.view(_e, &_cholmodRhs);
+      _cholmod.view(_systemE, &_cholmodRhs);
       if (_useDiagonalConditioner) {
         J_transpose.popDiagonalBlock();
       }
@@ -57,6 +58,8 @@ namespace aslam {
       _jacobianBuilder.buildSystem(nThreads, useMEstimator);
       CompressedColumnMatrix<SuiteSparse_long>& J_transpose = _jacobianBuilder.J_transpose();
       J_transpose.rightMultiply(_e, _rhs);
+      // _e follows every evaluation of the error, the system stays.
+      _systemE = _e;
       //std::cout << "build system complete\n";
       _R.clear();
     }
@@ -68,7 +71,7 @@ namespace aslam {
         J_transpose.pushDiagonalBlock(_diagonalConditioner);
       }
       J_transpose.getView(&_cholmodLhs);
-      _cholmod.view(_e, &_cholmodRhs);
+      _cholmod.view(_systemE, &_cholmodRhs);
       //std::cout << "solve system\n";
       if (!_factor) {
         //std::cout << "\tAnalyze system\n";
-- 
2.43.0


From 6fb7dd2fdb58d9994e1f9fe8c44469aa7ed192f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 036/138] fix: after a failed step the trust region policies
 compared its cost with the cost before the last successful step

---
 aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
index 3e7b135..30368fc 100644
--- a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
@@ -39,6 +39,7 @@ namespace aslam {
         bool TrustRegionPolicy::solveSystem(double J, bool previousIterationFailed, int nThreads, Eigen::VectorXd& outDx)
         {
             if(previousIterationFailed) {
+                _p_J = _last_successful_J;
                 _J = J;
             } else {
                 _p_J = _last_successful_J;
-- 
2.43.0


From 03317e5aaf6eb6d984ee872d59b2732b3e5879eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 037/138] fix: Optimizer2 reported a failure of the linear
 solver it had recovered from and did not stop any more

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 2feb50f..e109d68 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -228,6 +228,7 @@ namespace aslam {
                     linearSolverFailure = true;
                     srv.failedIterations++;
                 } else {
+                    linearSolverFailure = false;
                     /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
                     timeBackSub.start();
                     deltaX = applyStateUpdate();
-- 
2.43.0


From 99750de974400c4f5cca1265488ffbd992c17388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 038/138] fix: Optimizer2 accepted a step to a cost that is not
 a number

---
 aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp | 2 +-
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp              | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index bfed369..63dae78 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -48,7 +48,7 @@ namespace aslam {
                 {
                     _delta /= 2.0;
                 }
-                else if (rho <= 0)  // step failed
+                else if (!(rho > 0))  // step failed
                 {
                     // if we took a GN step set the trust region to the GN Step / 2
                     if(_stepType == "GN")
diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index e109d68..fdb40f6 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -241,6 +241,10 @@ namespace aslam {
                     // This was a regression.
                     if( _trustRegionPolicy->revertOnFailure() )
                     {
+                        if(std::isnan(deltaJ)) {
+                            // Not a number is a regression as well
+                            deltaJ = -std::numeric_limits<double>::infinity();
+                        }
                         if(deltaJ < 0.0)
                         {
                             _options.verbose && std::cout << "Last step was a regression. Reverting\n";
-- 
2.43.0


From 39b3134fe6e649de52bb6c0c35726d4431e47e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 039/138] fix: Optimizer2::J returned the cost of a step that
 was reverted

---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index fdb40f6..5918d0d 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -270,7 +270,9 @@ namespace aslam {
                 } // if the linear solver failed / else
             }
 
-            srv.JFinal = _p_J;
+            // The cost of a reverted step is not the cost of the final state.
+            _J = _p_J;
+            srv.JFinal = _J;
             srv.dXFinal = deltaX;
             srv.dJFinal = deltaJ;
             srv.linearSolverFailure = linearSolverFailure;
-- 
2.43.0


From b00583273125e61842ea66afb9195055b9e21a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 040/138] fix: the dog leg policy used a missing or outdated
 Gauss-Newton step after the linear solver had failed

---
 .../aslam_backend/backend/DogLegTrustRegionPolicy.hpp     | 2 ++
 .../aslam_backend/src/DogLegTrustRegionPolicy.cpp         | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
index abe6a57..c0467ca 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
@@ -32,6 +32,8 @@ namespace aslam {
             Eigen::VectorXd _dx;
             Eigen::VectorXd _dx_sd;
             Eigen::VectorXd _dx_gn;
+            /// \brief is _dx_gn the Gauss-Newton step of the current system?
+            bool _gnComputed = false;
 
             double _dx_sd_norm;
             double _dx_gn_norm;
diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index 63dae78..db84281 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -18,6 +18,7 @@ namespace aslam {
             std::string _stepType;
             _delta  = 0;
             _p_delta = 0;
+            _gnComputed = false;
 
         }
 
@@ -57,7 +58,6 @@ namespace aslam {
                         _delta /= 2.0;
                 }
             }
-            bool gnComputed = true;
             // successful step:
             // rebuild system and recalculate sd-solution
             if(!previousIterationFailed) {
@@ -75,7 +75,7 @@ namespace aslam {
                 _dx_sd_norm = _dx_sd.norm();
 
                 // invalidate GN solution
-                gnComputed = false;
+                _gnComputed = false;
             }
 
             // Trust Region smaller than SD:
@@ -89,14 +89,14 @@ namespace aslam {
             else
             {
                 // calculate the GN step.
-                if(!gnComputed)
+                if(!_gnComputed)
                 {
                     solutionSuccess = _solver->solveSystem(_dx_gn);
 
                     if(!solutionSuccess)
                         return solutionSuccess;
 
-                    gnComputed = true;  // now we have it!
+                    _gnComputed = true;  // now we have it!
                     // and calculate the norm:
                     _dx_gn_norm = _dx_gn.norm();
                 }
-- 
2.43.0


From 1015618ce22f8ba2174c04626fa6c440550678be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 041/138] fix: the predicted reduction of a dog leg step lacked
 its first term because of an integer division

---
 aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp | 2 +-
 aslam_optimizer/aslam_backend/src/Optimizer.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index db84281..be38352 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -131,7 +131,7 @@ namespace aslam {
                     }
 
                     _dx = _dx_sd + _beta * ( dgnsd );
-                    _L0 = 1/2 * _sd_scale * (1-_beta)*(1-_beta)* _solver->rhs().squaredNorm() + _beta*(2-_beta)*J;
+                    _L0 = 0.5 * _sd_scale * (1-_beta)*(1-_beta)* _solver->rhs().squaredNorm() + _beta*(2-_beta)*J;
                     _stepType = "DL";
                 }
             }
diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 20c8113..21f7b61 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -365,7 +365,7 @@ namespace aslam {
                     }
 
                     _dx = _dx_sd + beta * ( dgnsd );
-                    L0 = 1/2 * _sd_scale * (1-beta)*(1-beta)* _rhs.squaredNorm() + beta*(2-beta)*_J;
+                    L0 = 0.5 * _sd_scale * (1-beta)*(1-beta)* _rhs.squaredNorm() + beta*(2-beta)*_J;
                     stepType = "DL";
                   }
                 }
-- 
2.43.0


From 184ed53526129d4404f5640c487bbe353a4df37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 042/138] fix: Optimizer reverted the last successful step when
 the linear solver failed

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 21f7b61..e2b0235 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -521,8 +521,7 @@ namespace aslam {
           // \todo do something better
           //SM_ASSERT_TRUE(Exception, solutionSuccess, "The linear solution failed");
           isLmRegression = true;
-          // **** if J is a regression
-          revertLastStateUpdate();
+          // There is no step to revert.
           // ***** Update lambda
           // _lambda *= 1000;
           _lambda *= mu;
-- 
2.43.0


From 53ab46dd0497bb2a964ce1ac9186ecb36387666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 043/138] fix: Optimizer returned the cost of a reverted step
 as the final one and accepted costs that are not a number

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index e2b0235..570c54a 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -541,7 +541,12 @@ namespace aslam {
             // update rho:
             double rho = getLmRho();
             // if(_J > _p_J)
-            if (rho <= 0) {
+            if (std::isnan(rho) && deltaX > 0.0) {
+              // A cost that is not a number is a regression as well.
+              rho = -1.0;
+              deltaJ = -std::numeric_limits<double>::infinity();
+            }
+            if (!(rho > 0)) {
               isLmRegression = true;
               // **** if J is a regression
               revertLastStateUpdate();
@@ -550,6 +555,8 @@ namespace aslam {
               _lambda *= mu;
               mu *= 2;
               srv.failedIterations++;
+              // The cost of the state is that before the step.
+              _J = _p_J;
             } else {
               isLmRegression = false;
               // **** otherwise
-- 
2.43.0


From 7d3494337f918bb741a049399d2be98b5ae0b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 044/138] fix: the estimate of the initial lambda read other
 entries than the diagonal ones

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 570c54a..b7a6b91 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -149,7 +149,7 @@ namespace aslam {
           if (H) {
             for (int j = 0; j < H->rows(); j++) {
               if (fabs((*H)(j, j)) > maximum)
-                maximum = fabs((*H)(i, j));
+                maximum = fabs((*H)(j, j));
             }
           }
         }
-- 
2.43.0


From 819e4d62758dfedf1b07bbad9874cf5d1c5f43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 045/138] fix: the steepest descent step of
 Optimizer::optimizeDogLeg was too long or too short

A step longer than the Gauss-Newton step made the dog leg step not a number
and ended the optimization.
---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index b7a6b91..1bf74c7 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -249,10 +249,19 @@ namespace aslam {
               // calculate steepest descent step:
               timeSD.start();
 
-              Eigen::VectorXd Hrhs(_H.rows(),1);
-              _H.multiply(&Hrhs, _rhs);
+              // rhs^T H rhs. Only the upper triangular part of the Hessian is stored.
+              double rhsHrhs = 0.0;
+              for (size_t c = 0; c < _H.blockCols().size(); ++c) {
+                const SparseBlockMatrix::IntBlockMap& col = _H.blockCols()[c];
+                for (SparseBlockMatrix::IntBlockMap::const_iterator it = col.begin(); it != col.end(); ++it) {
+                  const int r = it->first;
+                  const double v = _rhs.segment(_H.rowBaseOfBlock(r), _H.rowsOfBlock(r)).dot(
+                      *it->second * _rhs.segment(_H.colBaseOfBlock(c), _H.colsOfBlock(c)));
+                  rhsHrhs += r == (int)c ? v : 2.0 * v;
+                }
+              }
 
-              _sd_scale = _rhs.squaredNorm() / Hrhs.squaredNorm();
+              _sd_scale = _rhs.squaredNorm() / rhsHrhs;
              // std::cout << "  alpha:" << _sd_scale << std::endl;
               _dx_sd = _sd_scale * _rhs;
 
-- 
2.43.0


From 1857c76cf0247a4dfee513256974d0149c658850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 046/138] fix: an exception of an error term reached the caller
 of a threaded evaluation without its type and message

---
 .../aslam_backend/src/LinearSystemSolver.cpp  | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
index ee45398..d653507 100644
--- a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
@@ -2,6 +2,7 @@
 #include <boost/thread.hpp>
 #include <aslam_backend/backend/ErrorTerm.hpp>
 #include <boost/ref.hpp>
+#include <exception>
 
 namespace aslam {
   namespace backend {
@@ -22,27 +23,17 @@ namespace aslam {
       }
     }
 
-    struct SafeJobReturnValue {
-      SafeJobReturnValue(const std::exception& e) : _e(e) {}
-
-      std::exception _e;
-    };
-
     struct SafeJob {
       boost::function<void()> _fn;
-      SafeJobReturnValue* _rval;
-      SafeJob() : _rval(NULL) {}
-      SafeJob(boost::function<void()> fn) : _fn(fn), _rval(NULL) {}
-      ~SafeJob() {
-        if (_rval) delete _rval;
-      }
+      std::exception_ptr _exception;
+      SafeJob() {}
+      SafeJob(boost::function<void()> fn) : _fn(fn) {}
 
       void operator()() {
         try {
           _fn();
-        } catch (const std::exception& e) {
-          _rval = new SafeJobReturnValue(e);
-          std::cout << "Exception in thread block: " << e.what() << std::endl;
+        } catch (...) {
+          _exception = std::current_exception();
         }
       }
     };
@@ -70,8 +61,8 @@ namespace aslam {
         threads.join_all();
         // Now go through and look for exceptions.
         for (size_t i = 0; i < nThreads; ++i) {
-          if (jobs[i]._rval) {
-            throw jobs[i]._rval->_e;
+          if (jobs[i]._exception) {
+            std::rethrow_exception(jobs[i]._exception);
           }
         }
       }
-- 
2.43.0


From 1705e0aca2e63b61428c8d306c17125790cf6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 047/138] fix: a threaded evaluation of no error terms divided
 by zero

---
 .../implementation/CompressedColumnJacobianTransposeBuilder.hpp | 2 +-
 aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
index 1783df7..69f761b 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
@@ -58,7 +58,7 @@ namespace aslam {
     template<typename MEMBER_FUNCTION_PTR>
     void CompressedColumnJacobianTransposeBuilder<I>::setupThreadedJob(MEMBER_FUNCTION_PTR ptr, size_t nThreads, bool useMEstimator)
     {
-      if (nThreads <= 1) {
+      if (nThreads <= 1 || _jacobianPointers.empty()) {
         (this->*ptr)(0, 0, _jacobianPointers.size(), useMEstimator);
       } else {
         nThreads = std::min(nThreads, _jacobianPointers.size());
diff --git a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
index d653507..6d3faf4 100644
--- a/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp
@@ -40,7 +40,7 @@ namespace aslam {
 
     void LinearSystemSolver::setupThreadedJob(boost::function<void(size_t, size_t, size_t, bool)> job, size_t nThreads, bool useMEstimator)
     {
-      if (nThreads <= 1) {
+      if (nThreads <= 1 || _errorTerms.empty()) {
         job(0, 0, _errorTerms.size(), useMEstimator);
       } else {
         nThreads = std::min(nThreads, _errorTerms.size());
-- 
2.43.0


From 6c85ad4a029c7746b49e935fc77c20679f8b5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 048/138] fix: an exception while building the sparse Jacobian
 in several threads ended the process

---
 .../CompressedColumnJacobianTransposeBuilder.hpp   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
index 69f761b..121cbdd 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
@@ -1,5 +1,6 @@
 #include <aslam_backend/backend/CompressedColumnJacobianTransposeBuilder.hpp>
 #include <boost/thread.hpp>
+#include <exception>
 
 namespace aslam {
   namespace backend {
@@ -71,10 +72,21 @@ namespace aslam {
         indices.back() = _jacobianPointers.size();
         // Build a thread pool and evaluate the jacobians.
         boost::thread_group threads;
+        std::vector<std::exception_ptr> exceptions(nThreads);
         for (unsigned i = 0; i < nThreads; ++i) {
-          threads.create_thread(boost::bind(ptr, this, i, indices[i], indices[i + 1], useMEstimator));
+          threads.create_thread([=, &exceptions, &indices]() {
+            try {
+              (this->*ptr)(i, indices[i], indices[i + 1], useMEstimator);
+            } catch (...) {
+              exceptions[i] = std::current_exception();
+            }
+          });
         }
         threads.join_all();
+        for (unsigned i = 0; i < nThreads; ++i) {
+          if (exceptions[i])
+            std::rethrow_exception(exceptions[i]);
+        }
       }
     }
 
-- 
2.43.0


From 5bb613d0a0692cc1ab10ab7e3a7c17b019d6aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 049/138] fix: OptimizationProblem kept an error term it had
 refused

---
 aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
index 6c0e392..73c4978 100644
--- a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
+++ b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
@@ -58,11 +58,14 @@ namespace aslam {
     /// \brief Add an error term to the problem
     void OptimizationProblem::addErrorTerm(const boost::shared_ptr<ErrorTerm> & et)
     {
+      for (size_t i = 0; i < et->numDesignVariables(); ++i) {
+        DesignVariable* dv = et->designVariable(i);
+        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(dv), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
+      }
       _errorTerms.push_back(et);
       // add this error term to the multi-map
       for (size_t i = 0; i < et->numDesignVariables(); ++i) {
         DesignVariable* dv = et->designVariable(i);
-        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(dv), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
         _errorTermMap.insert(std::make_pair(dv, et.get()));
       }
     }
-- 
2.43.0


From 4263daaab13f57690ed4bc5ac7cabdb3734430a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 050/138] fix: removing a design variable that an error term
 uses twice removed the error term twice

---
 .../aslam_backend/src/OptimizationProblem.cpp            | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
index 73c4978..1abf2ad 100644
--- a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
+++ b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
@@ -165,12 +165,13 @@ namespace aslam {
       // Remove any error terms from the project
       error_map_t::iterator it, it2, it_end;
       boost::tie(it, it_end) = _errorTermMap.equal_range(const_cast<DesignVariable*>(dv));
-      std::vector<ErrorTerm*> terms;
+      // An error term may be listed several times.
+      std::set<ErrorTerm*> terms;
       for (; it != it_end; ++it) {
-        terms.push_back(it->second);
+        terms.insert(it->second);
       }
-      for (size_t i = 0; i < terms.size(); ++i) {
-        removeErrorTerm(terms[i]);
+      for (std::set<ErrorTerm*>::iterator tit = terms.begin(); tit != terms.end(); ++tit) {
+        removeErrorTerm(*tit);
       }
       // Now remove the design variable itself.
       std::vector< boost::shared_ptr<DesignVariable> >::iterator dit = _designVariables.begin();
-- 
2.43.0


From a948ea7da69d5ade6789ab73c2841900c619f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 051/138] fix: IncrementalOptimizationProblem counted the
 design variables of a problem it had refused

---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index e5e6748..25f9461 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -188,8 +188,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // check the problem before anything changes
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -201,21 +217,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From a7f41caba675111d7a6e3a346502efffc587193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 052/138] fix: a cleared IncrementalOptimizationProblem still
 restored its former design variables

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 25f9461..776fce3 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -273,6 +273,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From 1d7b8051e2a70858140de07c15fda8b986264f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 053/138] fix: permute never ended for repeated indices and
 changed the container before it refused an index

---
 .../algorithms/permute.tpp                           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
index e3110c3..36bd3f4 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
@@ -33,11 +33,19 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
-      for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
+      std::vector<bool> used(container.size(), false);
+      for (size_t i = 0; i < container.size(); ++i) {
+        if (permutation[i] < static_cast<I>(0) || permutation[i] >= static_cast<I>(container.size()))
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        if (used[permutation[i]])
+          throw OutOfBoundException<I>(permutation[i], static_cast<I>(
+            container.size()), "duplicate index in permutation vector",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        used[permutation[i]] = true;
+      }
+      for (I i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From 6bae5fc672c6357c8ed83f0965ee3369dac661de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 054/138] fix: the series of axisAngle2quat and of
 quat2AxisAngle for small angles had a wrong and a vanishing second term

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 09e85eb..e9bed3f 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 8d6c3133ffa6987b39123420f5f31d54b184b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 055/138] fix: axisAngle2R ignored negative angles

---
 Schweizer-Messer/sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 6837d61..11a6a28 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -96,7 +96,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From 59fcfc39de36a568e9d19bd43948e52a433eed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 056/138] fix: rotation vectors and Rodriguez parameters of
 rotations by pi were zero, those of small rotations inaccurate or not a
 number

---
 .../sm_kinematics/src/EulerRodriguez.cpp      | 26 +++--------------
 .../sm_kinematics/src/RotationVector.cpp      | 22 +-------------
 .../sm_kinematics/src/rotations.cpp           | 29 ++++---------------
 3 files changed, 11 insertions(+), 66 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp b/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
index cf73658..ec713e1 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
@@ -1,4 +1,5 @@
 #include <sm_kinematics/EulerRodriguez.hpp>
+#include <sm_kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -26,28 +27,9 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
-      Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
-
-      if(fabs(a) < 1e-14){
-	return Eigen::Vector3d::Zero();
-      }
-      
-      p[0] = (C(2,1) - C(1,2));
-      p[1] = (C(0,2) - C(2,0));
-      p[2] = (C(1,0) - C(0,1));
-      
-      double n2 = p.norm();
-      if(n2 < 1e-14)
-	{
-	  return Eigen::Vector3d::Zero();
-	}
-            
-      double scale = -tan(0.5*a)/n2;
-      p = scale * p;
-
-
-      return p;
+      // The parameters are axis * tan(angle/2).
+      Eigen::Vector4d q = r2quat(C);
+      return qeps(q) / qeta(q);
     }
 
     Eigen::Matrix3d EulerRodriguez::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index e074df3..884d8e9 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -56,27 +56,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Vector3d RotationVector::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
         {
-            Eigen::Vector3d p;
-            // Sometimes, because of roundoff error, the value of tr ends up outside
-            // the valid range of arccos. Truncate to the valid range.
-            double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-            double a = acos( tr ) ;
-
-            if(fabs(a) < 1e-14){
-                return Eigen::Vector3d::Zero();
-            }
-      
-            p[0] = (C(2,1) - C(1,2));
-            p[1] = (C(0,2) - C(2,0));
-            p[2] = (C(1,0) - C(0,1));
-            double n2 = p.norm();
-            if(fabs(n2) < 1e-14)
-                return Eigen::Vector3d::Zero();
-      
-            double scale = -a/n2;
-            p = scale * p;
-
-            return p;
+            return R2AxisAngle(C);
         }
 
         Eigen::Matrix3d RotationVector::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 11a6a28..819d97d 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -1,4 +1,5 @@
 #include <sm_kinematics/rotations.hpp>
+#include <sm_kinematics/quaternion_algebra.hpp>
 #include <sm_common/assert_macros.hpp>
 #include <boost/math/special_functions/fpclassify.hpp>
 #include <boost/math/special_functions/round.hpp>
@@ -131,29 +132,11 @@ namespace sm { namespace kinematics {
   }
 	
   Eigen::Vector3d R2AxisAngle(Eigen::Matrix3d const & C){
-    // Sometimes, because of roundoff error, the value of tr ends up outside
-    // the valid range of arccos. Truncate to the valid range.
-    double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-    double a = acos( tr ) ;
-
-    Eigen::Vector3d axis;
-
-    if(fabs(a) < 1e-10) {
-      return Eigen::Vector3d::Zero();
-    }
-		
-    axis[0] = (C(2,1) - C(1,2));
-    axis[1] = (C(0,2) - C(2,0));
-    axis[2] = (C(1,0) - C(0,1));
-    double n2 = axis.norm();
-    if(fabs(n2) < 1e-10)
-      return Eigen::Vector3d::Zero();
-		
-    double scale = -a/n2;
-    axis = scale * axis;
-
-    return axis;
-
+    // Go through the quaternion, which is accurate for every angle: neither the trace
+    // for small angles nor the antisymmetric part of C for angles close to pi is.
+    Eigen::Vector4d q = r2quat(C);
+    q.normalize();
+    return quat2AxisAngle(q);
   }
 
   // Utility functions
-- 
2.43.0


From 2c76c940bf69bfe3d828d9edce4b5f330d745e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 057/138] fix: the Jacobian of the angular velocity of a
 rotation vector was not a number at zero and wrong next to it

---
 .../sm_kinematics/src/RotationVector.cpp           | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index 884d8e9..0b736fb 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -100,6 +100,20 @@ namespace sm { namespace kinematics {
 
                 //Jacobian->block(0,0,3,3) = Eigen::Matrix3d::Zero();
                 Jacobian->block(0,3,3,3) = S;
+
+                const double theta2 = p.squaredNorm();
+                if(theta2 < 1e-4)
+                {
+                    // The closed form below divides by the angle. Use the series of
+                    // omega = pdot - a p x pdot + b p x (p x pdot) for small ones.
+                    const double a = 0.5 - theta2 / 24.0, b = 1.0/6.0 - theta2 / 120.0;
+                    const double da = -1.0/12.0 + theta2 / 180.0, db = -1.0/60.0 + theta2 / 1260.0;
+                    const Eigen::Vector3d u = p.cross(pdot), v = p.cross(u);
+                    Jacobian->block(0,0,3,3) = a * crossMx(pdot)
+                        + b * (p.dot(pdot) * Eigen::Matrix3d::Identity() + p * pdot.transpose() - 2.0 * pdot * p.transpose())
+                        - da * u * p.transpose() + db * v * p.transpose();
+                    return omega;
+                }
     
                 // LAZY
                 // \todo...redo when there is time and not so lazy.
-- 
2.43.0


From 993b1d88eda1d0e715a1e8ebcba4637073d32c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 058/138] fix: the inverse S matrix of a small rotation vector
 was not a number

---
 .../sm_kinematics/src/RotationVector.cpp          | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index 0b736fb..69c4b31 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -1,4 +1,5 @@
 #include <sm_kinematics/RotationVector.hpp>
+#include <sm_kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -179,19 +180,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Matrix3d RotationVector::parametersToInverseSMatrix(const Eigen::Vector3d & parameters) const
         {
-            double phi = std::sqrt(parameters.transpose()*parameters);
-            Eigen::Matrix3d invS;
-            if(phi == 0)
-            {
-                invS = Eigen::Matrix3d::Identity();
-            }
-            else
-            {
-                double cot = - std::sin(phi)/(std::cos(phi)-1);
-                double a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
-                invS = Eigen::Matrix3d::Identity() + 0.5*crossMx(parameters) + a1*crossMx(parameters)*crossMx(parameters);
-            }
-            return invS;
+            return logDiffMat<double>(parameters);
         }
 
 
-- 
2.43.0


From 3b7522438aa5303c620e47adddec1263e25dcbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 059/138] fix: Euler angles of rotation matrices with rounding
 errors could be not a number

---
 .../sm_kinematics/include/sm_kinematics/rotations.hpp  |  2 ++
 .../sm_kinematics/src/EulerAnglesYawPitchRoll.cpp      |  2 +-
 Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp  |  2 +-
 Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp  |  2 +-
 Schweizer-Messer/sm_kinematics/src/rotations.cpp       | 10 +++++++---
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/include/sm_kinematics/rotations.hpp b/Schweizer-Messer/sm_kinematics/include/sm_kinematics/rotations.hpp
index 7774493..386b86e 100755
--- a/Schweizer-Messer/sm_kinematics/include/sm_kinematics/rotations.hpp
+++ b/Schweizer-Messer/sm_kinematics/include/sm_kinematics/rotations.hpp
@@ -66,6 +66,8 @@ namespace sm { namespace kinematics {
   Eigen::Vector3d R2AxisAngle(Eigen::Matrix3d const & C);
 
   // Utility functions
+  /// The arc sine of a value that should be in [-1, 1] but may leave it by rounding errors.
+  double clampedAsin(double x);
   // Moves a value in radians to within -pi, pi
   double angleMod(double radians);
   double deg2rad(double degrees);
diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index fc61189..1859fef 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -36,7 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
+      double phi = clampedAsin(-rotationMatrix(2,0));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
index 1f0d7d7..ce61189 100644
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -67,7 +67,7 @@ namespace sm {
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
       const double sx = rotationMatrix(2, 1);
-      const double r_x = asin(sx);
+      const double r_x = clampedAsin(sx);
       const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
       const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
       return Eigen::Vector3d(r_z, r_x, r_y);
diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
index c253681..a9c40c5 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -36,7 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
+      double phi = clampedAsin(rotationMatrix(2,0));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 819d97d..3a36e2c 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -60,8 +60,12 @@ namespace sm { namespace kinematics {
     return rph2R(x[0],x[1],x[2]);
   }
 
+  double clampedAsin(double x){
+    return asin(std::max(-1.0, std::min(x, 1.0)));
+  }
+
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
+    double phi = clampedAsin(C(2,0));
     double theta = atan2(C(2,1),C(2,2));
     double psi = atan2(C(1,0), C(0,0));
     
@@ -193,7 +197,7 @@ namespace sm { namespace kinematics {
 
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = clampedAsin(C(2,0));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
@@ -204,7 +208,7 @@ namespace sm { namespace kinematics {
    {
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = clampedAsin(C(2,0));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
-- 
2.43.0


From 49986d987cc61433ba58f119cc2ba9f7e2ba9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 060/138] fix: sums and differences of homogeneous points had
 wrong uncertainties unless the scales are one and certain

---
 .../sm_kinematics/src/HomogeneousPoint.cpp             |  9 +++++++--
 .../sm_kinematics/src/UncertainHomogeneousPoint.cpp    | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
index 32cbb67..6d0947d 100755
--- a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,5 +1,6 @@
 #include <sm_kinematics/HomogeneousPoint.hpp>
 #include <sm_kinematics/quaternion_algebra.hpp>
+#include <sm_kinematics/homogeneous_coordinates.hpp>
 #include <sm_kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm_common/serialization_macros.hpp>
 
@@ -51,7 +52,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d P = toHomogeneousPlus(_ph);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(P * rhs.U4() * P.transpose()));
 
     }
       
@@ -65,7 +67,10 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // The derivative of the difference with respect to rhs.
+      Eigen::Matrix4d P = toHomogeneousPlus(_ph);
+      P.topLeftCorner<3,3>() *= -1.0;
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(P * rhs.U4() * P.transpose()));
     }
 
 
diff --git a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index b0f0783..49e3d1d 100755
--- a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      Eigen::Matrix4d P = toHomogeneousPlus(pr);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(P * U4() * P.transpose()));
 
     }
     
@@ -175,7 +176,8 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	Eigen::Matrix4d P = toHomogeneousMinus(pr);
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(P * U4() * P.transpose()));
 
       }
 
@@ -203,8 +205,10 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
+	// The derivatives of the difference with respect to rhs and to this point.
 	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	PL.topLeftCorner<3,3>() *= -1.0;
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 9c709fcdde21ca1e26aa974255ecebcc67f1c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 061/138] fix: project homogeneous points of negative scale
 with Jacobian as without

---
 .../cameras/implementation/PinholeProjection.hpp              | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 232d2aa..379beda 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -179,10 +179,6 @@ bool PinholeProjection<DISTORTION_T>::homogeneousToKeypoint(
   J.derived().resize(KeypointDimension, 4);
   J.setZero();
 
-  // hope this works... (required to have valid static asserts)
-  return euclideanToKeypoint(ph.derived().template head<3>(), outKeypoint,
-                             J.derived().template topLeftCorner<2, 3>());
-
   if (ph[3] < 0) {
     bool success = euclideanToKeypoint(
         -ph.derived().template head<3>(), outKeypoint,
-- 
2.43.0


From 6a6042ba8eb39eb8cc5b4d9a9ba0c3461c063138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 062/138] fix: order of the factors of the pinhole back
 projection Jacobian

---
 .../cameras/implementation/PinholeProjection.hpp            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 379beda..0e01f5a 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -257,10 +257,8 @@ bool PinholeProjection<DISTORTION_T>::keypointToEuclidean(
   //J.derived()(0,0) = 1.0;
   //J.derived()(1,1) = _fu_over_fv;
 
-  J.derived()(0, 0) = _recip_fu;
-  J.derived()(1, 1) = _recip_fv;
-
-  J *= Jd;
+  J.derived().template topLeftCorner<2, 2>() = Jd
+      * Eigen::Vector2d(_recip_fu, _recip_fv).asDiagonal();
 
   return isValid(keypoint);
 
-- 
2.43.0


From 7906328a7eb42258f5b7e4e90480b442ea6a929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 063/138] fix: size of the results of the back projection with
 Jacobian

---
 .../cameras/implementation/DoubleSphereProjection.hpp            | 1 +
 .../cameras/implementation/ExtendedUnifiedProjection.hpp         | 1 +
 .../aslam_cameras/cameras/implementation/OmniProjection.hpp      | 1 +
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
index dbb1999..07bf3c1 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
@@ -375,6 +375,7 @@ bool DoubleSphereProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.derived().resize(3, KeypointDimension);
 
   Jk(0, 0) = _recip_fu * (mx * d_k_d_mx + k);
   Jk(1, 0) = _recip_fu * my * d_k_d_mx;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 751bf31..86cbfe0 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -330,6 +330,7 @@ bool ExtendedUnifiedProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.derived().resize(3, KeypointDimension);
   
   Jk(0, 0) = (norm_inv + 2 * mx * mx * d_norm_inv_d_r2) * _recip_fu;
   Jk(1, 0) = (2 * my * mx * d_norm_inv_d_r2) * _recip_fu;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
index 796becb..ae59bdd 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
@@ -298,6 +298,7 @@ bool OmniProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.derived().resize(3, KeypointDimension);
 
   double r0 = outPoint[0];
   double r1 = outPoint[1];
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 0e01f5a..3400540 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -304,6 +304,7 @@ bool PinholeProjection<DISTORTION_T>::keypointToHomogeneous(
 
   DERIVED_P & p =
       const_cast<DERIVED_P &>(outPoint);
+  p.derived().resize(4);
   p[3] = 0.0;
 
   return keypointToEuclidean(keypoint, p.template head<3>(),
-- 
2.43.0


From 462702514f9826448bb18cf75f6deb766880bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 064/138] fix: extended unified intrinsics Jacobian used the
 wrong focal length

---
 .../cameras/implementation/ExtendedUnifiedProjection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 86cbfe0..3f8a075 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -433,7 +433,7 @@ void ExtendedUnifiedProjection<DISTORTION_T>::euclideanToKeypointIntrinsicsJacob
   J.setZero();
 
   const double tmp_x = -_fu * x * norm_inv2;
-  const double tmp_y = -_fu * y * norm_inv2;
+  const double tmp_y = -_fv * y * norm_inv2;
 
   const double tmp4 = (d - z);
   const double tmp5 = 0.5 * _alpha * r2 * d_inv;
-- 
2.43.0


From 965c51f6bd7b21c92b5f143a2e0394d121bd6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 065/138] fix: place of the distortion part in the combined
 intrinsics Jacobian

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 56a06ff..fe8e3c9 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -679,14 +679,14 @@ namespace aslam {
       if (estimateProjection) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointIntrinsicsJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension, _projection.minimalDimensions()) = J;
+        outJi.block(0, col, KeypointDimension, _projection.minimalDimensions()) = J;
         col += _projection.minimalDimensions();
       }
 
       if (estimateDistortion) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointDistortionJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension,
+        outJi.block(0, col, KeypointDimension,
                     _projection.distortion().minimalDimensions()) = J;
         col += _projection.distortion().minimalDimensions();
       }
-- 
2.43.0


From 3d97ae4abc31044cc28d0e8bf01537eaaf4fd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 066/138] fix: visibility through the camera interface ignored
 the mask

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index fe8e3c9..7aed6c8 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -121,13 +121,13 @@ namespace aslam {
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsEuclideanVisible(
         const Eigen::Vector3d & p) const {
-      return _projection.isEuclideanVisible(p);
+      return isEuclideanVisible(p);
     }
 
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsHomogeneousVisible(
         const Eigen::Vector4d & ph) const {
-      return _projection.isHomogeneousVisible(ph);
+      return isHomogeneousVisible(ph);
     }
 
     // The amount of time elapsed between the start of the image and the
-- 
2.43.0


From 21606ef1a1c5a9047c6f09144e55dd9c28da86ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 067/138] fix: equidistant distortion at the image center was
 not a number

---
 .../cameras/implementation/EquidistantDistortion.hpp  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
index c7bda6b..3e26b95 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
@@ -50,6 +50,12 @@ void EquidistantDistortion::distort(
 
   double r, theta, theta2, theta4, theta6, theta8, thetad, scaling;
 
+  // The expressions below divide by the distance from the center.
+  if (y[0] * y[0] + y[1] * y[1] <= 1e-16) {
+    J.setIdentity();
+    return;
+  }
+
   //MATLAB generated Jacobian
   J(0, 0) = atan(sqrt(y[0] * y[0] + y[1] * y[1])) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1])
@@ -204,7 +210,7 @@ void EquidistantDistortion::undistort(
     theta = thetad
         / (1 + _k1 * theta2 + _k2 * theta4 + _k3 * theta6 + _k4 * theta8);
   }
-  scaling = tan(theta) / thetad;
+  scaling = (thetad > 1e-8) ? tan(theta) / thetad : 1.0;
 
   y[0] *= scaling;
   y[1] *= scaling;
@@ -255,6 +261,9 @@ void EquidistantDistortion::distortParameterJacobian(
   J.derived().resize(2, 4);
   J.setZero();
 
+  if (y[0] * y[0] + y[1] * y[1] == 0.0)
+    return;
+
   J(0, 0) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 3.0) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1]);
   J(0, 1) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 5.0) * 1.0
-- 
2.43.0


From e3307ad96c33315b4d624973414a93d450ce10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 068/138] fix: field of view parameter Jacobian near the image
 center

---
 .../aslam_cameras/cameras/implementation/FovDistortion.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
index 94db759..326c2a0 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
@@ -154,7 +154,7 @@ void FovDistortion::distortParameterJacobian(
     J.setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    J.setOnes();
+    J << y(0), y(1);
     J *= (_w - sin(_w)) / (_w * _w * cos(_w / 2) * cos(_w / 2));
   } else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From da82738809cd1a5885d9105351e58849b4595db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 069/138] fix: image mask was read outside its bounds

---
 .../include/aslam_cameras/cameras/ImageMask.hpp           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
index fc311f3..4a0bcdc 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
@@ -33,10 +33,12 @@ class ImageMask {
 
   template<typename DERIVED>
   bool isValid(const DERIVED & k) const {
-    int k1 = k(1, 0) * _scale;
-    int k0 = k(0, 0) * _scale;
+    const double k1 = k(1, 0) * _scale;
+    const double k0 = k(0, 0) * _scale;
 //     // \todo fix this when it is initialized properly
-    return !_mask.data || (_mask.at<unsigned char>(k1, k0) > 0);
+    return !_mask.data
+        || (k1 >= 0 && k0 >= 0 && k1 < _mask.rows && k0 < _mask.cols
+            && _mask.at<unsigned char>((int) k1, (int) k0) > 0);
   }
 
   // is the mask set? (i.e. mask data != NULL)
-- 
2.43.0


From 4ae9fa932a256321f7847f43f0e6dee1c7a959a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 070/138] fix: image masks of different scale compared equal

---
 aslam_cv/aslam_cameras/src/ImageMask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/ImageMask.cpp b/aslam_cv/aslam_cameras/src/ImageMask.cpp
index 96fa0b4..b314467 100644
--- a/aslam_cv/aslam_cameras/src/ImageMask.cpp
+++ b/aslam_cv/aslam_cameras/src/ImageMask.cpp
@@ -58,7 +58,7 @@ double ImageMask::getScale() const {
 }
 
 bool ImageMask::isBinaryEqual(const ImageMask & rhs) const {
-  return sm::opencv::isBinaryEqual(_mask, rhs._mask);
+  return sm::opencv::isBinaryEqual(_mask, rhs._mask) && _scale == rhs._scale;
 }
 
 void ImageMask::setMaskFromMatrix(const Eigen::MatrixXi & mask) {
-- 
2.43.0


From ec24a56398c42ff3ff8201060a22a72acfe26c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 071/138] fix: SM_CHECKSAME and SM_CHECKMEMBERSSAME were not
 usable as operands, so that comparisons stopped at the first equal member

---
 .../include/sm_common/serialization_macros.hpp         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
index 814afca..411111c 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
@@ -324,7 +324,7 @@ struct VerboseChecker {
     SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 362f815921fe666882e899bf01a4080e00e98c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 072/138] fix: headers of the generic scalar expressions could
 not be included

---
 .../include/aslam_backend_expressions/ExpressionErrorTerm.hpp | 4 ++--
 .../implementation/GenericScalarExpression.hpp                | 4 ++--
 .../implementation/GenericScalarExpressionNode.hpp            | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
index b11284b..d2634ad 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
@@ -11,8 +11,8 @@
 #include <aslam_backend/backend/ErrorTerm.hpp>
 #include <aslam_backend_expressions/VectorExpression.hpp>
 #include <aslam_backend_expressions/EuclideanExpression.hpp>
-#include <aslam_backend/backend/GenericMatrixExpression.hpp>
-#include <aslam_backend/backend/GenericScalarExpression.hpp>
+#include <aslam_backend_expressions/GenericMatrixExpression.hpp>
+#include <aslam_backend_expressions/GenericScalarExpression.hpp>
 
 namespace aslam {
 namespace backend {
diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
index 99c27b3..4822c4c 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
@@ -1,5 +1,5 @@
-#include <aslam_backend/backend/GenericScalarExpression.hpp>
-#include <aslam_backend/backend/GenericScalarExpressionNode.hpp>
+#include <aslam_backend_expressions/GenericScalarExpression.hpp>
+#include <aslam_backend_expressions/GenericScalarExpressionNode.hpp>
 #include <sm_boost/null_deleter.hpp>
 
 namespace aslam {
diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpressionNode.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpressionNode.hpp
index d3c7d6b..b67cd2f 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpressionNode.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpressionNode.hpp
@@ -1,4 +1,4 @@
-#include <aslam_backend/backend/GenericScalarExpressionNode.hpp>
+#include <aslam_backend_expressions/GenericScalarExpressionNode.hpp>
 #include <sm_kinematics/rotations.hpp>
 
 namespace aslam {
-- 
2.43.0


From 786f52d5c8ff3d5452209f6d4ca7782ff145d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 073/138] fix: Jacobians of the division of generic scalar
 expressions were exchanged

---
 .../implementation/GenericScalarExpression.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
index 4822c4c..68a5ed4 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
@@ -134,8 +134,8 @@ class GenericScalarExpressionNodeDivide : public GSEBinRes<Scalar_> {
     Eigen::MatrixXd L(1, 1), R(1, 1);
     L(0, 0) = 1.0 / this->_rhs->toScalar();
     R(0, 0) = -this->_lhs->toScalar() / (this->_rhs->toScalar() * this->_rhs->toScalar());
-    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
-    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
   }
 };
 
-- 
2.43.0


From 9b2be50553676381d2ad5e7d7d3f1dae748b09c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 074/138] fix: generic matrix expressions did not compile with
 Eigen 3.4

---
 .../include/aslam_backend_expressions/BasisMatrixFunctor.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
index 283ff1b..cd8907f 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/BasisMatrixFunctor.hpp
@@ -22,11 +22,11 @@ struct BasisMatrixNullaryFunctor {
         _i(i),
         _j(j) {
   }
-  inline result_type operator()(Eigen::DenseIndex& index) const {
+  inline result_type operator()(Eigen::DenseIndex index) const {
     return (_cwiseIndex == index) ? 1 : 0;
   }
 
-  inline result_type operator()(Eigen::DenseIndex& row, Eigen::DenseIndex& col) const {
+  inline result_type operator()(Eigen::DenseIndex row, Eigen::DenseIndex col) const {
     return (_i == row && _j == col) ? 1 : 0;
   }
 };
-- 
2.43.0


From 28d9dc880ed00d99053ed9a3e284f0774062ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 075/138] fix: left translated unit quaternion design variables
 had no Jacobian

---
 .../DesignVariableUnitQuaternion.hpp                          | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
index bfa61ee..4920ebb 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableUnitQuaternion.hpp
@@ -39,9 +39,7 @@ class DesignVariableUnitQuaternion : public DesignVariableGenericVector<4, Scala
   }
 
   virtual void evaluateJacobiansImplementation(JacobianContainer & outJacobians, const typename base_t::differential_t & diff) const {
-    if(Geometry_ == UnitQuaternionGeometry::RIGHT_TRANSLATED){
-      diff.addToJacobianContainer(outJacobians, (const DesignVariable *) this, Calculator::template dUpdate<Geometry_>(this->evaluate()));
-    }
+    diff.addToJacobianContainer(outJacobians, (const DesignVariable *) this, Calculator::template dUpdate<Geometry_>(this->evaluate()));
   }
 
 
-- 
2.43.0


From 5eecf79a39c7077ddae2794ada49bce0b06a12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 076/138] fix: minimal difference of mapped design variables
 used the values before the last update

---
 .../implementation/DesignVariableMappedVector.hpp             | 2 +-
 .../aslam_backend_expressions/src/MappedEuclideanPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp  | 4 ++--
 .../src/MappedRotationQuaternion.cpp                          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
index 4f9edfa..4653cf8 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
@@ -115,7 +115,7 @@ namespace aslam {
     void DesignVariableMappedVector<D>::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
     	SM_ASSERT_TRUE(aslam::Exception, (xHat.rows() == D)&&(xHat.cols() == 1), "Dimension mismatch!");
-    	outDifference = _p_v - xHat;
+    	outDifference = _v - xHat;
     }
 
     template<int D>
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
index 81e116b..81d88fc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedEuclideanPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 3) && (xHat.cols() == 1), "xHat has incompatible dimensions");
-     outDifference = _p_p - xHat;
+     outDifference = _p - xHat;
     }
 
     void MappedEuclideanPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 4361364..969c1cc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedHomogeneousPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedHomogeneousPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -84,7 +84,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index 52d7d61..b8be1f8 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -74,7 +74,7 @@ namespace aslam {
     void MappedRotationQuaternion::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_q, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedRotationQuaternion::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -82,7 +82,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
-- 
2.43.0


From e0a4ef59e1c50633dc2854470fa912a5bed9c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 077/138] fix: Jacobian of the minimal difference was not a
 number at equal quaternions

---
 .../aslam_backend_expressions/src/HomogeneousPoint.cpp          | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedRotationQuaternion.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
index a716dae..419eae3 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 969c1cc..122eb1c 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index b8be1f8..6794b7a 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -83,7 +83,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
   } // namespace backend
-- 
2.43.0


From 1b22e30458862c751dddfc234f94623f723a6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 078/138] fix: generic vector design variables did not keep the
 value that a revert restores

---
 .../aslam_backend_expressions/DesignVariableGenericVector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableGenericVector.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableGenericVector.hpp
index 9b520fd..1c10ab4 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableGenericVector.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/DesignVariableGenericVector.hpp
@@ -18,7 +18,7 @@ class DesignVariableGenericVector : public DesignVariable, public GenericMatrixE
   SM_DEFINE_EXCEPTION(Exception, std::runtime_error);
 
   DesignVariableGenericVector(vector_t v = vector_t::Zero())
-      : base_t(v) {
+      : base_t(v), _p_v(v) {
   }
   virtual ~DesignVariableGenericVector() {
   }
@@ -28,6 +28,7 @@ class DesignVariableGenericVector : public DesignVariable, public GenericMatrixE
 
   using DesignVariable::setParameters;
   void setParameters(const Eigen::Matrix<Scalar_, D, 1>& value) {
+    _p_v = this->_currentValue;
     this->_currentValue = value;
     this->_valueDirty = false;
   }
@@ -52,6 +53,7 @@ class DesignVariableGenericVector : public DesignVariable, public GenericMatrixE
   }
 
   virtual void setParametersImplementation(const Eigen::MatrixXd& value) {
+    _p_v = this->_currentValue;
     this->_currentValue = value.template cast<Scalar_>();
     this->_valueDirty = false;
   }
-- 
2.43.0


From ec495afd9cbb7c69c26c8268abcc3b3a47431075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 079/138] fix: reverting an adapted design variable before its
 first update failed

---
 .../backend/implementation/DesignVariableAdapter.hpp            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/DesignVariableAdapter.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/DesignVariableAdapter.hpp
index a409bd2..e8caeec 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/DesignVariableAdapter.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/DesignVariableAdapter.hpp
@@ -10,11 +10,13 @@ namespace aslam {
       } else {
         _dv.reset(dv, sm::null_deleter());
       }
+      _dv->getParameters(_backup);
     }
 
     template<typename T>
     DesignVariableAdapter<T>::DesignVariableAdapter(const boost::shared_ptr<T>& dv) : _dv(dv)
     {
+      _dv->getParameters(_backup);
     }
 
     template<typename T>
-- 
2.43.0


From 57d6b790f8e2e20e6bd680c89d728b31c8e23161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 080/138] fix: assigning to a view of a block matrix zeroed the
 viewed blocks

---
 .../implementation/sparse_block_matrix.hpp        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
index 532caf0..7869d6f 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
@@ -63,7 +63,8 @@ SparseBlockMatrix<MatrixType>::SparseBlockMatrix(const std::vector<int> & rbi, c
 }
 
 template<class MatrixType>
-SparseBlockMatrix<MatrixType>::SparseBlockMatrix(const SparseBlockMatrix& source) {
+SparseBlockMatrix<MatrixType>::SparseBlockMatrix(const SparseBlockMatrix& source)
+    : _hasStorage(true) {
   // copy source into this:
   source.cloneInto(*this);
 }
@@ -76,7 +77,9 @@ SparseBlockMatrix<MatrixType>::SparseBlockMatrix(SparseBlockMatrix&& source) : _
 template<class MatrixType>
 SparseBlockMatrix<MatrixType> & SparseBlockMatrix<MatrixType>::operator= (SparseBlockMatrix&& source) {
   if(this != &source){
-    clear(true);
+    // The blocks of a view belong to another matrix.
+    if (_hasStorage)
+      clear(true);
     _rowBlockIndices = std::move(source._rowBlockIndices);
     _colBlockIndices = std::move(source._colBlockIndices);
     _blockCols = std::move(source._blockCols);
@@ -163,15 +166,15 @@ SparseBlockMatrix<MatrixType>* SparseBlockMatrix<MatrixType>::clone() const {
 template<class MatrixType>
 void SparseBlockMatrix<MatrixType>::cloneInto(SparseBlockMatrix<MatrixType> & ret) const {
   if (&ret != this) {
-    ret.clear(true);
-    ret = SparseBlockMatrix<MatrixType>(&_rowBlockIndices[0], &_colBlockIndices[0], _rowBlockIndices.size(), _colBlockIndices.size());
+    // Copy first: this may be a view of the blocks of ret.
+    SparseBlockMatrix<MatrixType> copy(&_rowBlockIndices[0], &_colBlockIndices[0], _rowBlockIndices.size(), _colBlockIndices.size());
     for (size_t i = 0; i < _blockCols.size(); i++) {
       for (typename SparseBlockMatrix<MatrixType>::IntBlockMap::const_iterator it = _blockCols[i].begin(); it != _blockCols[i].end(); it++) {
         typename SparseBlockMatrix<MatrixType>::SparseMatrixBlock* b = new typename SparseBlockMatrix<MatrixType>::SparseMatrixBlock(*it->second);
-        ret._blockCols[i].insert(std::make_pair(it->first, b));
+        copy._blockCols[i].insert(std::make_pair(it->first, b));
       }
     }
-    ret._hasStorage = true;
+    ret = std::move(copy);
   }
 }
 
-- 
2.43.0


From de1829035b3a9d2b1a49e2b554d663b21f488b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 081/138] fix: transposing a block matrix into another one kept
 blocks of the latter

---
 .../implementation/sparse_block_matrix.hpp                       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
index 7869d6f..deaea59 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
@@ -258,6 +258,7 @@ bool SparseBlockMatrix<MatrixType>::transpose(SparseBlockMatrix<MatrixTransposed
       if (_colBlockIndices[i] != dest->_rowBlockIndices[i])
         return false;
     }
+    dest->clear();
   }
 
   for (size_t i = 0; i < _blockCols.size(); i++) {
-- 
2.43.0


From 56fe16d8474418b9f02796d1701b7521bc1c96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 082/138] fix: multiplying block matrices into an existing one
 added to its values

---
 .../implementation/sparse_block_matrix.hpp                | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
index deaea59..255a886 100755
--- a/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
+++ b/aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp
@@ -323,9 +323,13 @@ bool SparseBlockMatrix<MatrixType>::multiply(SparseBlockMatrix<MatrixResultType>
   }
   if (!dest) {
     dest = new SparseBlockMatrix<MatrixResultType>(&_rowBlockIndices[0], &(M->_colBlockIndices[0]), _rowBlockIndices.size(), M->_colBlockIndices.size());
+  } else {
+    if (!dest->_hasStorage)
+      return false;
+    if (dest->_rowBlockIndices != _rowBlockIndices || dest->_colBlockIndices != M->_colBlockIndices)
+      return false;
+    dest->clear();
   }
-  if (!dest->_hasStorage)
-    return false;
   for (size_t i = 0; i < M->_blockCols.size(); i++) {
     for (typename SparseBlockMatrix<MatrixFactorType>::IntBlockMap::const_iterator it = M->_blockCols[i].begin(); it != M->_blockCols[i].end(); it++) {
       // look for a non-zero block in a row of column it
-- 
2.43.0


From 9733fc3e71a781052978cc342e6b2c51fc684b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 083/138] fix: compressed column matrices were inconsistent
 after a reset

---
 .../implementation/CompressedColumnMatrix.hpp  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 1263f48..4f87807 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -37,7 +37,9 @@ namespace aslam {
     {
       _rows = rows;
       _cols = cols;
+      _values.clear();
       _values.reserve(nnz);
+      _row_ind.clear();
       _row_ind.reserve(nnz);
       _col_ptr.reserve(num_cols);
       _col_ptr.assign(_cols + 1, (index_t)0);
@@ -133,7 +135,8 @@ namespace aslam {
     {
       _values.clear();
       _row_ind.clear();
-      _col_ptr.assign(_rows + 1, (index_t)0);
+      _col_ptr.assign(_cols + 1, (index_t)0);
+      _hasDiagonalAppended = false;
     }
 
 
@@ -430,6 +433,7 @@ namespace aslam {
         }
         _col_ptr.push_back(_values.size());
       }
+      _hasDiagonalAppended = false;
       checkMatrixDbg();
     }
 
@@ -465,13 +469,15 @@ namespace aslam {
       const I* row_ind = reinterpret_cast<const I*>(cs->i);
       const I* col_ptr = reinterpret_cast<const I*>(cs->p);
       const double* values = reinterpret_cast<const double*>(cs->x);
-      const size_t nzmax = cs->nzmax;
+      // The arrays may be larger than what the columns use.
+      const size_t nnz = col_ptr[_cols];
       _col_ptr.resize(_cols + 1);
       std::copy(col_ptr, col_ptr + _cols + 1, _col_ptr.begin());
-      _row_ind.resize(nzmax);
-      std::copy(row_ind, row_ind + nzmax, _row_ind.begin());
-      _values.resize(nzmax);
-      std::copy(values, values + nzmax, _values.begin());
+      _row_ind.resize(nnz);
+      std::copy(row_ind, row_ind + nnz, _row_ind.begin());
+      _values.resize(nnz);
+      std::copy(values, values + nnz, _values.begin());
+      _hasDiagonalAppended = false;
       checkMatrixDbg();
     }
 
-- 
2.43.0


From c2420330eea697c3811a7448278b7805c703b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 084/138] fix: the checks of Jacobians of dynamic error terms
 did not look at them

---
 aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp b/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp
index d4f90a1..bccd07b 100644
--- a/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp
+++ b/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp
@@ -167,16 +167,17 @@ namespace aslam {
     }
 
     void ErrorTermDs::checkJacobiansFinite() const {
-#ifdef BOOST_NO_AUTO_DECLARATIONS
-        for (JacobianContainer::map_t::iterator it = _jacobians.begin(); it != _jacobians.end(); ++it) {      
-#else
-        for (auto it = _jacobians.begin(); it != _jacobians.end(); ++it) {
-#endif
+      JacobianContainer J(_dimensionErrorTerm);
+      evaluateJacobians(J);
+      for (JacobianContainer::map_t::iterator it = J.begin(); it != J.end(); ++it) {
         SM_ASSERT_MAT_IS_FINITE(Exception, it->second, "Jacobian is not finite!");
       }
     }
 
     void ErrorTermDs::checkJacobiansNumerical(double tolerance) {
+      JacobianContainer J(_dimensionErrorTerm);
+      evaluateJacobians(J);
+
       detail::ErrorTermDsFunctor functor(*this);
       sm::eigen::NumericalDiff<detail::ErrorTermDsFunctor >
         numdiff(functor, tolerance);
@@ -189,7 +190,7 @@ namespace aslam {
       int offset = 0;
       for (size_t i = 0; i < numDesignVariables(); i++) {
         DesignVariable* d = designVariable(i);
-        const Eigen::MatrixXd JAna = _jacobians.Jacobian(d);
+        const Eigen::MatrixXd JAna = J.Jacobian(d);
         const Eigen::MatrixXd JNum =
           JNumComp.block(0, offset, _dimensionErrorTerm, d->minimalDimensions());
         for (int r = 0; r < JAna.rows(); ++r)
-- 
2.43.0


From 9ac6c8dece6adcbab865569ecbc6f37e26a8f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 085/138] fix: checking Jacobians failed for inactive design
 variables

---
 .../aslam_backend/backend/implementation/ErrorTerm.hpp        | 4 ++++
 aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/ErrorTerm.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/ErrorTerm.hpp
index 95384ff..2a4872c 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/ErrorTerm.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/ErrorTerm.hpp
@@ -220,6 +220,10 @@ namespace aslam {
       int offset = 0;
       for (size_t i = 0; i < numDesignVariables(); i++) {
         DesignVariable* d = designVariable(i);
+        if (!d->isActive()) {
+          offset += d->minimalDimensions();
+          continue;
+        }
         const Eigen::MatrixXd JAna = J.Jacobian(d);
         const Eigen::MatrixXd JNum =
           JNumComp.block(0, offset, C, d->minimalDimensions());
diff --git a/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp b/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp
index bccd07b..b2d26e8 100644
--- a/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp
+++ b/aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp
@@ -190,6 +190,10 @@ namespace aslam {
       int offset = 0;
       for (size_t i = 0; i < numDesignVariables(); i++) {
         DesignVariable* d = designVariable(i);
+        if (!d->isActive()) {
+          offset += d->minimalDimensions();
+          continue;
+        }
         const Eigen::MatrixXd JAna = J.Jacobian(d);
         const Eigen::MatrixXd JNum =
           JNumComp.block(0, offset, _dimensionErrorTerm, d->minimalDimensions());
-- 
2.43.0


From 47934d9912fc51d3cd051c783f3a4dea2334a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 086/138] fix: marginal covariances of overdetermined problems
 aborted

---
 aslam_optimizer/aslam_backend/src/Marginalizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index 29ca601..7530a18 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -152,7 +152,7 @@ void marginalize(
 			  if(numTopRowsInCov > 0)
 			  {
 				sm::timing::Timer myTimer("Covariance computation");
-				Eigen::FullPivLU<Eigen::MatrixXd> lu_decomp(R);
+				Eigen::FullPivLU<Eigen::MatrixXd> lu_decomp(R.topRows(jcols));
 				Eigen::MatrixXd Rinv = lu_decomp.inverse();
 				Eigen::MatrixXd covariance = Rinv * Rinv.transpose();
 				outCov = covariance.block(0, 0, numTopRowsInCov, numTopRowsInCov);
-- 
2.43.0


From a22a9731b25febbaf117b39a749e0e2e2ab3b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 087/138] fix: marginalization was wrong for scaled design
 variables

---
 aslam_optimizer/aslam_backend/src/Marginalizer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index 7530a18..e8798dd 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -104,7 +104,11 @@ void marginalize(
 		  qrSolver.buildSystem(1, useMEstimator);
 
 
-		  const Eigen::MatrixXd& jacobian = qrSolver.getJacobian();
+		  // The prior works on the design variables themselves: undo their scaling.
+		  Eigen::MatrixXd jacobian = qrSolver.getJacobian();
+		  for (const aslam::backend::DesignVariable* dv : inDesignVariables) {
+			  jacobian.middleCols(dv->columnBase(), dv->minimalDimensions()) /= dv->scaling();
+		  }
 		  const Eigen::VectorXd& b = qrSolver.e();
 
 		  // check dimension of jacobian
-- 
2.43.0


From 84754bb541fa24bface3113d9a5374ce5bb605a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 088/138] fix: a failed marginalization left changed block
 indices behind

---
 .../aslam_backend/src/Marginalizer.cpp        | 49 ++++++++++++-------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index e8798dd..7365697 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -20,6 +20,36 @@
 namespace aslam {
 namespace backend {
 
+namespace {
+  /// Puts back the block indices and the row and column bases, however the marginalization ends.
+  struct IndexRestorer {
+    const std::vector<aslam::backend::DesignVariable*>& designVariables;
+    const std::vector<aslam::backend::ErrorTerm*>& errorTerms;
+    std::vector<int> blockIndices;
+    std::vector<int> columnBases;
+    std::vector<size_t> rowBases;
+
+    IndexRestorer(const std::vector<aslam::backend::DesignVariable*>& dvs, const std::vector<aslam::backend::ErrorTerm*>& ets)
+        : designVariables(dvs), errorTerms(ets) {
+      for (const aslam::backend::DesignVariable* dv : designVariables) {
+        blockIndices.push_back(dv->blockIndex());
+        columnBases.push_back(dv->columnBase());
+      }
+      for (const aslam::backend::ErrorTerm* e : errorTerms)
+        rowBases.push_back(e->rowBase());
+    }
+
+    ~IndexRestorer() {
+      for (size_t i = 0; i < designVariables.size(); ++i) {
+        designVariables[i]->setBlockIndex(blockIndices[i]);
+        designVariables[i]->setColumnBase(columnBases[i]);
+      }
+      for (size_t i = 0; i < errorTerms.size(); ++i)
+        errorTerms[i]->setRowBase(rowBases[i]);
+    }
+  };
+}
+
 void marginalize(
 			std::vector<aslam::backend::DesignVariable*>& inDesignVariables,
 			std::vector<aslam::backend::ErrorTerm*>& inErrorTerms,
@@ -72,24 +102,18 @@ void marginalize(
 		  }
 
 		  // store original block indices to prevent side effects
-		  std::vector<int> originalBlockIndices;
-		  std::vector<int> originalColumnBase;
+		  IndexRestorer indexRestorer(inDesignVariables, inErrorTerms);
 			// assign block indices
 			int columnBase = 0;
 			for (size_t i = 0; i < inDesignVariables.size(); ++i) {
-				originalBlockIndices.push_back(inDesignVariables[i]->blockIndex());
-				originalColumnBase.push_back(inDesignVariables[i]->columnBase());
-
 				inDesignVariables[i]->setBlockIndex(i);
 				inDesignVariables[i]->setColumnBase(columnBase);
 			  columnBase += inDesignVariables[i]->minimalDimensions();
 			}
 
 			int dim = 0;
-			std::vector<size_t> originalRowBase;
 			for(std::vector<aslam::backend::ErrorTerm*>::iterator it = inErrorTerms.begin(); it != inErrorTerms.end(); ++it)
 			{
-				originalRowBase.push_back((*it)->rowBase());
 				(*it)->setRowBase(dim);
 				dim += (*it)->dimension();
 			}
@@ -184,17 +208,6 @@ void marginalize(
 		  boost::shared_ptr<aslam::backend::MarginalizationPriorErrorTerm> err(new aslam::backend::MarginalizationPriorErrorTerm(remainingDesignVariables, d_reduced, R_reduced));
 
 		  outPriorErrorTermPtr.swap(err);
-
-		  // restore initial block indices to prevent side effects
-          for (size_t i = 0; i < inDesignVariables.size(); ++i) {
-              inDesignVariables[i]->setBlockIndex(originalBlockIndices[i]);
-              inDesignVariables[i]->setColumnBase(originalColumnBase[i]);
-          }
-          int index = 0;
-          for(std::vector<aslam::backend::ErrorTerm*>::iterator it = inErrorTerms.begin(); it != inErrorTerms.end(); ++it)
-          {
-              (*it)->setRowBase(originalRowBase[index++]);
-          }
 }
 
 
-- 
2.43.0


From 6599c5d706a461f5461808371b50945f7a8963d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 089/138] fix: the order of a new knot sequence was not checked

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index fe08248..55b7802 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -187,7 +187,7 @@ namespace aslam_bsplines {
 		     << "for a B-spline of order " << splineOrder_ << ". At least " << minimumKnotsRequired() 
 		     << " knots are required");
       
-      for(unsigned i = 1; i < knots_.size(); i++)
+      for(unsigned i = 1; i < knots.size(); i++)
 	{
 	  SM_ASSERT_LE(Exception, knots[i-1], knots[i],
 			 "The knot sequence must be nondecreasing. Knot " << i
-- 
2.43.0


From 752b3dba54a5954958ff0cce5bddd394b46f0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 090/138] fix: removing a curve segment kept its basis matrix

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 55b7802..43adb04 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -743,6 +743,8 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
 	{
 	  knots_.erase(knots_.begin());
 	  coefficients_ = coefficients_.block(0,1,coefficients_.rows(),coefficients_.cols() - 1).eval();
+	  if(!basisMatrices_.empty())
+	    basisMatrices_.erase(basisMatrices_.begin());
 	}
     }
 
-- 
2.43.0


From 1203d63f3a56dbe29f5280443ad22b407d29e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 091/138] fix: the regularization of an added curve segment
 left out the fixed coefficients

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 43adb04..c2e40e7 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -1246,12 +1246,12 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       // Add regularization constraints (keep the acceleration small)
       P = Phi(t_0,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * (P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients);
       brow += D;
 
       P = Phi(t_1,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * (P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients);
       brow += D;
 
       //A.block(brow,bcol,coefficientDim,coefficientDim) = 1e-4 * Eigen::MatrixXd::Identity(coefficientDim, coefficientDim);
-- 
2.43.0


From 0d9b06c981c2eb30525a635e436953eafca7e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 092/138] fix: Jacobian of the acceleration in the body frame
 left out the orientation

---
 .../aslam_splines/src/BSplineExpressions.cpp    | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 4f8e95c..1f13ce2 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -1,5 +1,6 @@
 #include <aslam_splines/BSplineExpressions.hpp>
 #include <aslam_splines/BSplinePoseDesignVariable.hpp>
+#include <sm_kinematics/rotations.hpp>
 
 namespace aslam {
     namespace splines {
@@ -312,9 +313,11 @@ namespace aslam {
     void BSplineAccelerationBodyFrameExpressionNode::
         evaluateJacobiansImplementation(aslam::backend::JacobianContainer&
         outJacobians) const {
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      Eigen::MatrixXd J, J_C;
+      Eigen::Vector3d a_w = _spline->linearAccelerationAndJacobian(_time, &J, NULL);
+      Eigen::Matrix3d C_b_w = _spline->inverseOrientationAndJacobian(_time, &J_C, NULL);
+      J = (C_b_w * J + sm::kinematics::crossMx(C_b_w * a_w) * J_C).eval();
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
@@ -326,9 +329,11 @@ namespace aslam {
         outJacobians, const Eigen::MatrixXd & applyChainRule) const {
       SM_ASSERT_EQ_DBG(aslam::Exception, applyChainRule.cols(), 3,
         "The chain rule matrix is the wrong size");
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      Eigen::MatrixXd J, J_C;
+      Eigen::Vector3d a_w = _spline->linearAccelerationAndJacobian(_time, &J, NULL);
+      Eigen::Matrix3d C_b_w = _spline->inverseOrientationAndJacobian(_time, &J_C, NULL);
+      J = (C_b_w * J + sm::kinematics::crossMx(C_b_w * a_w) * J_C).eval();
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
-- 
2.43.0


From 41ddd3a74623339d63e61a00ee2427e085124333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 093/138] fix: Jacobian of the pose at a variable time used the
 wrong blocks

---
 .../aslam_splines/src/BSplineExpressions.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 1f13ce2..6ec13bb 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -484,7 +484,7 @@ namespace aslam {
             {
             	// nonzero Jacobian
             	if(_localCoefficientIndices[i] >= minIdx && _localCoefficientIndices[i] <= maxIdx )
-            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(i-minIdx)*6) );
+            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(_localCoefficientIndices[i]-minIdx)*6) );
             	// zero Jacobian:
             	else
             		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), Eigen::Matrix<double, 6,6>::Zero());
-- 
2.43.0


From db33a7d05df50a11dcca5fb2181e2f223ac9f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 094/138] fix: angular velocities with Jacobians had the
 opposite sign of those without

---
 .../aslam_bsplines/src/BSplinePose.cpp                    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index b771999..bd7b2b6 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -273,12 +273,12 @@ namespace aslam_bsplines {
       //std::cout << "Jpdot\n" << Jpdot << std::endl;
 
       Eigen::Matrix<double,3,6> Jo;
-      omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
       
       //std::cout << "Jo:\n" << Jo << std::endl;
       if(J)
 	{
-	  *J = Jo * Jpdot;
+	  *J = -Jo * Jpdot;
 	}
 
       return omega;
@@ -349,10 +349,10 @@ namespace aslam_bsplines {
     	Jpdot.block(0,0,3,Jpdot.cols()) = Jp.block(3,0,3,Jp.cols());
 
     	Eigen::Matrix<double,3,6> Jo;
-    	omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
     	if(J)
     	{
-    		*J = Jo * Jpdot;
+    		*J = -Jo * Jpdot;
     	}
 
     	return omega;
-- 
2.43.0


From f47efa49c8cffe0331fd43d08e8cd17d798fa513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 095/138] fix: motion error terms of segments had their minimum
 at twice the initial curve

---
 .../aslam_splines/implementation/BSplineMotionErrorFactory.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
index 317650a..bd111a8 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
@@ -18,7 +18,7 @@ void addMotionErrorTerms(OptimizationProblemBase& problem, SplineDv& splineDv, c
       dvs.push_back(splineDv.designVariable(idxs[i]));
     }
     MarginalizationPriorErrorTerm::Ptr err( 
-        new MarginalizationPriorErrorTerm( dvs, R*c, R ));
+        new MarginalizationPriorErrorTerm( dvs, -R*c, R ));
     problem.addErrorTerm(err);
             
   }
-- 
2.43.0


From 0359f4f508c29c5319938ec68e143ea7b2e4e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 096/138] fix: the error terms of Euclidean points and
 expressions could not be instantiated

---
 .../include/aslam_backend_expressions/ErrorTermEuclidean.hpp    | 2 +-
 .../include/aslam_backend_expressions/ExpressionErrorTerm.hpp   | 2 +-
 .../aslam_backend_expressions/src/ErrorTermEuclidean.cpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
index 8b6fd3f..6306802 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
@@ -41,7 +41,7 @@ namespace aslam {
       virtual double evaluateErrorImplementation();
 
       /// \brief evaluate the jacobian
-      virtual void evaluateJacobiansImplementation(JacobianContainer & J);
+      virtual void evaluateJacobiansImplementation(JacobianContainer & J) const;
 
     private:
       aslam::backend::EuclideanExpression _t;
diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
index d2634ad..09b0865 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
@@ -101,7 +101,7 @@ class ExpressionErrorTerm : public aslam::backend::ErrorTermFs<IDimension> {
   }
 
   /// \brief evaluate the jacobian
-  virtual void evaluateJacobiansImplementation(JacobianContainer & jacobians) {
+  virtual void evaluateJacobiansImplementation(JacobianContainer & jacobians) const {
     _expression.evaluateJacobians(jacobians);
   }
 
diff --git a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
index c476aa5..ce2d32d 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
@@ -59,7 +59,7 @@ namespace aslam {
 
 
   /// \brief evaluate the jacobians
-  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians)
+  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians) const
   {
      _t.evaluateJacobians(_jacobians);
   }
-- 
2.43.0


From f0c6d26a28c0ee792c512885d4a142b69836b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 097/138] fix: every point of a calibration target was refused
 as out of range

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2fbb2ce..dd3f2c2 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -36,7 +36,7 @@ Eigen::Vector3d GridCalibrationTargetBase::gridPoint(size_t r, size_t c) const {
 }
 
 double * GridCalibrationTargetBase::getPointDataPointer(size_t i) {
-  SM_ASSERT_LT(Exception, size()-1, i, "Grid has less points than the requested idx!")
+  SM_ASSERT_LT(Exception, i, size(), "Grid has less points than the requested idx!");
   return &_points(i, 0);
 }
 
-- 
2.43.0


From 517f422813a2caeee62df3995b20ff4b81131873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 098/138] fix: the covariance of rolling shutter keypoints left
 out the orientation of the camera

---
 .../implementation/CovarianceReprojectionError.hpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
index c900641..7b3c818 100644
--- a/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
+++ b/aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/CovarianceReprojectionError.hpp
@@ -68,7 +68,7 @@ namespace aslam {
 
     	//std::cout << "TPboxminus:" << std::endl << TPboxminus << std::endl;
 
-    	Eigen::MatrixXd J = outJp * TPboxminus * JT * Phi_dot_c * lineDelay; //outJp * J_t;
+    	Eigen::MatrixXd J = outJp * T.inverse() * TPboxminus * JT * Phi_dot_c * lineDelay; //outJp * J_t;
     	//std::cout << "J: " << std::endl << J << std::endl;
 
     	Eigen::MatrixXd A = Eigen::MatrixXd::Identity(2,2);
-- 
2.43.0


From bd7345659a03363a2f8a461b7950a3bc34821adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 099/138] fix: camera Jacobians with a chain rule could not be
 instantiated

---
 .../implementation/CameraDesignVariable.hpp      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/CameraDesignVariable.hpp b/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/CameraDesignVariable.hpp
index 9b84471..3b86537 100644
--- a/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/CameraDesignVariable.hpp
+++ b/aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/CameraDesignVariable.hpp
@@ -58,15 +58,15 @@ namespace aslam {
 
 		Eigen::MatrixXd Jp;
 		Eigen::MatrixXd Jd;
-		Eigen::MatrixXd Js;
-
-		_camera->homogeneousToKeypointIntrinsicsJacobian(ph, Jp);
-		_camera->homogeneousToKeypointDistortionJacobian(ph, Jd);
-		_camera->homogeneousToKeypointShutterJacobian(ph, Js);
 
-		outJacobians.add(_projectionDv.get(), -applyChainRule*Jp);
-		outJacobians.add(_distortionDv.get(), -applyChainRule*Jd);
-		outJacobians.add(_shutterDv.get(), -applyChainRule*Js);
+		if(_projectionDv->isActive()) {
+			_camera->homogeneousToKeypointIntrinsicsJacobian(ph, Jp);
+			outJacobians.add(_projectionDv.get(), -applyChainRule*Jp);
+		}
+		if(_distortionDv->isActive()) {
+			_camera->homogeneousToKeypointDistortionJacobian(ph, Jd);
+			outJacobians.add(_distortionDv.get(), -applyChainRule*Jd);
+		}
 
 	}
 
-- 
2.43.0


From 7096161110a68d77e8a047b6d40663ee98d2bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 100/138] fix: the cost of expression error terms used the
 transposed square root of the information

---
 .../include/aslam_backend_expressions/ExpressionErrorTerm.hpp  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
index 09b0865..44d73dd 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ExpressionErrorTerm.hpp
@@ -96,8 +96,7 @@ class ExpressionErrorTerm : public aslam::backend::ErrorTermFs<IDimension> {
   virtual double evaluateErrorImplementation() {
     auto error = internal::ExpressionToEigenVectorTraits<TExpression>::toEigenErrorVector(_expression.evaluate());
     this->setError(error);
-    auto tmp = (this->sqrtInvR() * error).eval();
-    return tmp.dot(tmp);
+    return this->evaluateChiSquaredError();
   }
 
   /// \brief evaluate the jacobian
-- 
2.43.0


From 3e2c2b3bcb66c8973ebfa05a630b54db2c92aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 101/138] fix: smoothing a row mixed in pixels of the row
 before it

---
 aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc b/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
index 8bd60a9..4fdaa0d 100644
--- a/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
+++ b/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
@@ -40,7 +40,7 @@ void Gaussian::convolveSymmetricCentered(const std::vector<float>& a, unsigned i
   for (size_t i = f.size()/2; i < f.size(); i++) {
     double acc = 0;
     for (size_t j = 0; j < f.size(); j++) {
-      if ((aoff + i) < j || (aoff + i) >= (alen + j))
+      if (i < j || i >= (alen + j))
 	acc += a[aoff] * f[j];
       else
 	acc += a[aoff + i - j] * f[j];
@@ -59,7 +59,7 @@ void Gaussian::convolveSymmetricCentered(const std::vector<float>& a, unsigned i
   for (size_t i = alen; i < alen + f.size()/2; i++) {
     double acc = 0;
     for (size_t j = 0; j < f.size(); j++) {
-      if ((aoff + i) >= (alen + j) || (aoff + i) < j)
+      if (i >= (alen + j) || i < j)
 	acc += a[aoff + alen - 1] * f[j];
       else
 	acc += a[aoff + i - j] * f[j];
-- 
2.43.0


From 4f853c278a91f6e41463700377d3df9bb7ac6289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 102/138] fix: tags were not detected in images whose rows are
 not contiguous

---
 aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
index d49cea6..763ee2d 100644
--- a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
+++ b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
@@ -41,11 +41,10 @@ namespace AprilTags {
     int width = image.cols;
     int height = image.rows;
     AprilTags::FloatImage fimOrig(width, height);
-    int i = 0;
     for (int y=0; y<height; y++) {
+      const unsigned char* row = image.ptr<unsigned char>(y);
       for (int x=0; x<width; x++) {
-        fimOrig.set(x, y, image.data[i]/255.);
-        i++;
+        fimOrig.set(x, y, row[x]/255.);
       }
     }
     std::pair<int,int> opticalCenter(width/2, height/2);
-- 
2.43.0


From 904f8931a6e8317581064b53a7ac16c32578bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 103/138] fix: the first focal length was guessed from rows
 beyond the last of the target

---
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 3400540..cf87357 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -754,7 +754,7 @@ bool PinholeProjection<DISTORTION_T>::initializeIntrinsics(const std::vector<Gri
 
     for (size_t j=0; j<target.rows(); ++j)
     {
-      for (size_t k=j+1; k<target.cols(); ++k)
+      for (size_t k=j+1; k<target.rows(); ++k)
       {
         // find distance between pair of vanishing points which
         // correspond to intersection points of 2 circles
-- 
2.43.0


From e6277f68074d5a13ec8d52dd3d347628afea77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 104/138] fix: straight rows of a target made the first focal
 length NaN

---
 .../cameras/implementation/PinholeProjection.hpp              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index cf87357..570294e 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -765,7 +765,9 @@ bool PinholeProjection<DISTORTION_T>::initializeIntrinsics(const std::vector<Gri
           continue;
 
          double f_guess = cv::norm(ipts.at(0) - ipts.at(1)) / M_PI;
-         f_guesses.push_back(f_guess);
+         // rows imaged as straight lines have no circle
+         if (std::isfinite(f_guess) && f_guess > 0.0)
+           f_guesses.push_back(f_guess);
       }
     }
   }
-- 
2.43.0


From 95380283b1657ac58891c508a87bd7383cfeab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 105/138] fix: corners of earlier images were reported as
 observed by april grids

---
 .../src/GridCalibrationTargetAprilgrid.cpp                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
index daf77c5..5b875be 100644
--- a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
+++ b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
@@ -275,8 +275,8 @@ bool GridCalibrationTargetAprilgrid::computeObservation(
   ///   ^      0-------1  2-------3
   ///   |-->x
 
-  outCornerObserved.resize(size(), false);
-  outImagePoints.resize(size(), 2);
+  outCornerObserved.assign(size(), false);
+  outImagePoints.setZero(size(), 2);
 
   for (unsigned int i = 0; i < detections.size(); i++) {
     // get the tag id
-- 
2.43.0


From 4f9ecd12ee46d8b485a580ad1da7a64549507996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 106/138] fix: the number of octaves of an image was declared
 but not defined

---
 aslam_cv/aslam_cameras/src/Image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv/aslam_cameras/src/Image.cpp b/aslam_cv/aslam_cameras/src/Image.cpp
index e65e4eb..b9ec0c0 100644
--- a/aslam_cv/aslam_cameras/src/Image.cpp
+++ b/aslam_cv/aslam_cameras/src/Image.cpp
@@ -11,6 +11,10 @@ Image::Image(int octaves) {
 Image::~Image() {
 }
 
+size_t Image::numOctaves() const {
+  return _octaves.size();
+}
+
 void Image::setNumOctaves(size_t octaves) {
   SM_ASSERT_GT_DBG(IndexOutOfBoundsException, octaves, 0,
                    "Image octave number must be greater than zero");
-- 
2.43.0


From cb601e5951c427d4d5ce6034b3fe230bb711e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 107/138] fix: assigning or swapping keypoints left out octave
 and trace id

---
 .../include/aslam_cameras/implementation/Keypoint.hpp           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
index b4ae5ad..d6d23ec 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
@@ -287,6 +287,8 @@ void Keypoint<D>::swap(Keypoint & rhs) {
     std::swap(_landmark, rhs._landmark);
     _descriptor.swap(rhs._descriptor);
     std::swap(_backProjection, rhs._backProjection);
+    std::swap(_octave, rhs._octave);
+    std::swap(_traceId, rhs._traceId);
   }
 }
 
-- 
2.43.0


From f75cf22cd5326ffa567e95f6fee55bd39256468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 108/138] fix: copies of a keypoint with a disabled landmark
 had it enabled

---
 .../aslam_cameras/include/aslam_cameras/KeypointBase.hpp    | 6 ++++++
 .../include/aslam_cameras/implementation/Keypoint.hpp       | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp
index 09ce45e..301cdd9 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/KeypointBase.hpp
@@ -112,6 +112,12 @@ class KeypointBase {
   /// \brief clear the back projeciton
   virtual void clearBackProjection() = 0;
 
+ protected:
+  /// \brief exchange the state kept in the base class
+  void swapBase(KeypointBase & rhs) {
+    std::swap(_landmarkEnabled, rhs._landmarkEnabled);
+  }
+
  private:
   bool _landmarkEnabled;
 };
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
index d6d23ec..9dc2d9d 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Keypoint.hpp
@@ -15,7 +15,7 @@ Keypoint<D>::Keypoint()
 /// \brief the copy constructor makes a deep copy
 template<int D>
 Keypoint<D>::Keypoint(const Keypoint & rhs)
-    : KeypointBase(),
+    : KeypointBase(rhs),
       _measurement(rhs._measurement),
       _inverseMeasurementCovariance(rhs._inverseMeasurementCovariance),
       _landmarkId(rhs._landmarkId),
@@ -289,6 +289,7 @@ void Keypoint<D>::swap(Keypoint & rhs) {
     std::swap(_backProjection, rhs._backProjection);
     std::swap(_octave, rhs._octave);
     std::swap(_traceId, rhs._traceId);
+    this->swapBase(rhs);
   }
 }
 
-- 
2.43.0


From 44f42e2d45126250139add2362acdfd7eb572d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 109/138] fix: an empty image was not equal to the one restored
 from its archive

---
 Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
index 00ac0ac..0853899 100755
--- a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
+++ b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
@@ -17,7 +17,7 @@ namespace sm {
 	      SM_CHECKSAME(m1.cols, m2.cols) &&
 	      SM_CHECKSAME(m1.depth(), m2.depth()) &&
 	      SM_CHECKSAME(m1.type(), m2.type()) &&
-	      SM_CHECKSAME(m1.elemSize(), m2.elemSize());
+	      (m1.empty() || SM_CHECKSAME(m1.elemSize(), m2.elemSize()));
 		
 	  if(isEqual)
 		{
-- 
2.43.0


From 981b1fb4860d67a857a42eebcb7f00e8b7b3e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 110/138] fix: a pinhole camera without distortion had no
 geometry

---
 .../kalibr/python/kalibr_common/ConfigReader.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index c38559d..0ee099a 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -64,13 +64,13 @@ class AslamCamera(object):
                                             principalPoint[0], principalPoint[1], 
                                             resolution[0], resolution[1])
                 
-                self.camera = cv.PinholeCameraGeometry(proj)
+                self.geometry = cv.PinholeCameraGeometry(proj)
                 
                 self.frameType = cv.PinholeFrame
                 self.keypointType = cv.Keypoint2
                 self.reprojectionErrorType = cvb.PinholeReprojectionErrorSimple
             else:
-                self.raiseError("pinhole camera model does not support distortion model '{}'".format(dist_model))
+                raise RuntimeError("pinhole camera model does not support distortion model '{}'".format(dist_model))
                 
         elif camera_model == 'omni':
             xi_omni = intrinsics[0]
-- 
2.43.0


From ebac034eabe946aa8cee74c30ede611ffd9b3e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 111/138] fix: an invalid target configuration ended in an
 undefined name

---
 .../kalibr/python/kalibr_common/ConfigReader.py               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 0ee099a..6772a85 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -548,6 +548,7 @@ class CalibrationTargetParameters(ParametersBase):
     def getTargetParams(self):
         #read target specidic data
         targetType = self.getTargetType()
+        errList = []
         
         if targetType == 'checkerboard':
             try:
@@ -620,6 +621,9 @@ class CalibrationTargetParameters(ParametersBase):
                             'tagSize': tagSize,
                             'tagSpacing': tagSpacing,
                             'targetType': targetType}
+        
+        if errList:
+            self.raiseError("Calibration target configuration in {0}: {1}".format(self.yamlFile, ", ".join(errList)) )
             
         return targetParams
         
-- 
2.43.0


From 2352697c9e1e0ea217f918925b0610d1333022e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 112/138] fix: a time window of a bag selected other messages
 when stamps were out of order

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py         | 4 ++--
 .../kalibr/python/kalibr_common/ImuDatasetReader.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index 3dbd5e6..7a21b4f 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -74,7 +74,7 @@ class BagImageDatasetReader(object):
   def truncateIndicesFromTime(self, indices, bag_from_to):
     # get the timestamps
     timestamps = list()
-    for idx in self.indices:
+    for idx in indices:
       topic, data, stamp = self.bag._read_message(self.index[idx].position)
       timestamp = data.header.stamp.secs + data.header.stamp.nsecs / 1.0e9
       timestamps.append(timestamp)
@@ -93,7 +93,7 @@ class BagImageDatasetReader(object):
 
     # find the valid timestamps
     valid_indices = []
-    for idx, timestamp in enumerate(timestamps):
+    for idx, timestamp in zip(indices, timestamps):
       if timestamp >= (bagstart + bag_from_to[0]) and timestamp <= (bagstart + bag_from_to[1]):
         valid_indices.append(idx)
     sm_python.logWarn(
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index 0f7fccc..05befd9 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -66,7 +66,7 @@ class BagImuDatasetReader(object):
     def truncateIndicesFromTime(self, indices, bag_from_to):
         #get the timestamps
         timestamps=list()
-        for idx in self.indices:
+        for idx in indices:
             topic, data, stamp = self.bag._read_message(self.index[idx].position)
             timestamp = data.header.stamp.secs + data.header.stamp.nsecs/1.0e9
             timestamps.append(timestamp)
@@ -85,7 +85,7 @@ class BagImuDatasetReader(object):
 
         #find the valid timestamps
         valid_indices = []
-        for idx, timestamp in enumerate(timestamps):
+        for idx, timestamp in zip(indices, timestamps):
              if timestamp>=(bagstart+bag_from_to[0]) and timestamp<=(bagstart+bag_from_to[1]):
                  valid_indices.append(idx)  
         sm_python.logWarn("BagImuDatasetReader: truncated {0} / {1} messages.".format(len(indices)-len(valid_indices), len(indices)))
-- 
2.43.0


From 7756d00d2685d9443349af9530753ea8a8007732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 113/138] fix: reading a bag in random order changed the order
 of later reads

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py           | 2 +-
 .../kalibr/python/kalibr_common/ImuDatasetReader.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index 7a21b4f..7b9fe4d 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -108,7 +108,7 @@ class BagImageDatasetReader(object):
     return BagImageDatasetReaderIterator(self, self.indices)
 
   def readDatasetShuffle(self):
-    indices = self.indices
+    indices = list(self.indices)
     np.random.shuffle(indices)
     return BagImageDatasetReaderIterator(self, indices)
 
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index 05befd9..773ee4e 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -100,7 +100,7 @@ class BagImuDatasetReader(object):
         return BagImuDatasetReaderIterator(self, self.indices)
 
     def readDatasetShuffle(self):
-        indices = self.indices
+        indices = list(self.indices)
         np.random.shuffle(indices)
         return BagImuDatasetReaderIterator(self,indices)
 
-- 
2.43.0


From baffd34e8ac38f2a388109308b46025f774cb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 114/138] fix: printing the table of views failed under Python
 3

---
 .../kalibr/python/kalibr_camera_calibration/ObsDb.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py
index 74ecfa6..5505ab3 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/ObsDb.py
@@ -143,22 +143,22 @@ class ObservationDatabase(object):
 #############################################################    
     def printTable(self):
         #header
-        print("timestamp \t",)
+        print("timestamp \t", end=" ")
         for cam_id in range(0, self.numCameras()):
-            print( "cam{0} \t".format(cam_id),)
+            print( "cam{0} \t".format(cam_id), end=" ")
         print()
         
         #sort for time
-        times_sorted = np.sort(self.targetViews.keys())
+        times_sorted = sorted(self.targetViews.keys())
         
         #data lines
         for time in times_sorted:
-            print (time,)
+            print (time, end=" ")
             for cam_id in range(0, self.numCameras()):
                 try:
                     numCorners = len(self.targetViews[time][cam_id]['observed_corners'])
                 except KeyError:
                     numCorners = "-"
-                print("\t", numCorners,)
+                print("\t", numCorners, end=" ")
             print()
 
-- 
2.43.0


From e93b1cb1ee873916e1c669098c90463984b94d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 115/138] fix: statistics of a corner used the errors of
 another camera of its view

---
 .../python/kalibr_camera_calibration/CameraCalibrator.py   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
index f8acd90..2592a09 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_camera_calibration/CameraCalibrator.py
@@ -323,11 +323,8 @@ def getPointStatistics(cself,view_id,cam_id,pidx):
     e = None
     
     if valid:
-        #translate point index to error term index (pidx!=eidx if not all points are observed!)
-        pidx_observed = obs.getCornersIdx()
-        eidx=list(pidx_observed).index(pidx)
-    
-        rerr = view.errorTerm(eidx)
+        #the reprojection errors are stored per camera and point
+        rerr = view.rerrs[cam_id][pidx]
         e = rerr.error()
         yhat = y - e
         v = normalize(geometry.keypointToEuclidean(y))
-- 
2.43.0


From 5be2aad3943dae57a647e12813c5bd4bf796981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 116/138] fix: the pose of a further IMU was written with its
 position as translation of T_i_b

---
 .../python/kalibr_imu_camera_calibration/IccSensors.py     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
index c628913..bf90282 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
@@ -576,8 +576,7 @@ class IccImu(object):
         return self.imuConfig
 
     def updateImuConfig(self):
-        self.imuConfig.setImuPose(sm_python.Transformation(sm_python.r2quat(self.q_i_b_Dv.toRotationMatrix()), \
-                                                    self.r_b_Dv.toEuclidean()).T())
+        self.imuConfig.setImuPose(self.getTransformationFromBodyToImu().T())
         self.imuConfig.setTimeOffset(self.timeOffset)
 
     def __init__(self, imuConfig, parsed, isReferenceImu=True, estimateTimedelay=True):
@@ -776,8 +775,8 @@ class IccImu(object):
         if self.isReferenceImu:
             return sm_python.Transformation()
         return sm_python.Transformation(sm_python.r2quat(self.q_i_b_Dv.toRotationMatrix()) , \
-                                 np.dot(self.q_i_b_Dv.toRotationMatrix(), \
-                                        self.r_b_Dv.toEuclidean()))
+                                 -np.dot(self.q_i_b_Dv.toRotationMatrix(), \
+                                         self.r_b_Dv.toEuclidean()))
 
     def findOrientationPrior(self, referenceImu):
         print()
-- 
2.43.0


From e3c41586e2dc8e5494bcdb8057a91f65054552d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 117/138] fix: a lever arm was printed to the screen and not to
 the result file

---
 .../kalibr/python/kalibr_imu_camera_calibration/IccSensors.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
index bf90282..eab518a 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
@@ -1078,7 +1078,7 @@ class IccScaledMisalignedSizeEffectImu(IccScaledMisalignedImu):
                                                np.array(self.data["accelerometers"]["ry_i"])), file=dest)
             print("    rz_i [m]:", file=dest)
             print(self.formatIndented("      ", \
-                                               np.array(self.data["accelerometers"]["rz_i"])))
+                                               np.array(self.data["accelerometers"]["rz_i"])), file=dest)
 
         def setAccelerometerLeverArms(self, rx_i, ry_i, rz_i):
             self.data["accelerometers"]["rx_i"] = rx_i.tolist()
-- 
2.43.0


From ade64654ab0e1c88971fd2d8148120110de4b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 118/138] fix: the time span of a camera chain was lost

---
 .../python/kalibr_imu_camera_calibration/IccSensors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
index eab518a..25db94b 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
@@ -457,22 +457,22 @@ class IccCameraChain():
 
     #find the timestamp for the first and last image considering all cameras in the chain
     def findCameraTimespan(self):
-        tStart = acv.Time( 0.0 )
-        tEnd = acv.Time( 0.0 )
+        tStart = None
+        tEnd = None
         
         for cam in self.camList:
             if len(cam.targetObservations)>0:
                 tStartCam = cam.targetObservations[0].time()
                 tEndCam   = cam.targetObservations[-1].time()
                 
-                if tStart.toSec() > tStartCam.toSec():
+                if tStart is None or tStart.toSec() > tStartCam.toSec():
                     tStart = tStartCam
                     
-                if tEndCam.toSec() > tEnd.toSec():
+                if tEnd is None or tEndCam.toSec() > tEnd.toSec():
                     tEnd = tEndCam
         
         self.timeStart = tStart
-        self.timeStart = tEnd
+        self.timeEnd = tEnd
          
     #find/set orientation prior between first camera in chain and main IMU (imu0) 
     def findOrientationPriorCameraChainToImu(self, imu):
-- 
2.43.0


From a4b648043a33c7712104ca993af1dd3be6f0cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 119/138] fix: the details of a circle grid were not printed

---
 .../kalibr/python/kalibr_common/ConfigReader.py              | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 6772a85..a55beb0 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -644,6 +644,11 @@ class CalibrationTargetParameters(ParametersBase):
             print("  Cols", file=dest)
             print("    Count: {0}".format(targetParams['targetCols']), file=dest)
             print("    Distance: {0} [m]".format(targetParams['colSpacingMeters']), file=dest)
+        elif targetType == 'circlegrid':
+            print("  Rows: {0}".format(targetParams['targetRows']), file=dest)
+            print("  Cols: {0}".format(targetParams['targetCols']), file=dest)
+            print("  Spacing: {0} [m]".format(targetParams['spacingMeters']), file=dest)
+            print("  Asymmetric: {0}".format(targetParams['asymmetricGrid']), file=dest)
         elif targetType == 'aprilgrid':
             print("  Tags: ", file=dest)
             print("    Rows: {0}".format(targetParams['tagRows']), file=dest)
-- 
2.43.0


From 35fbf1887a62987572eee106e02889337b509c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 120/138] fix: inertial sensors whose time ranges do not
 overlap were not refused

The spline spans the time of the other sensor, so its measurements are always inside; whether the
reference sensor measured anything in this time was not checked.
---
 .../python/kalibr_imu_camera_calibration/IccSensors.py      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
index 25db94b..876ead7 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_imu_camera_calibration/IccSensors.py
@@ -822,6 +822,12 @@ class IccImu(object):
                 #error term
                 gerr = ket.GyroscopeError(im.omega, im.omegaInvR, omega_predicted, bias)
                 problem.addErrorTerm(gerr)
+
+        if problem.numErrorTerms() == 0:
+            sm_python.logFatal("The time ranges of the IMUs published as topics {0} and {1} do not overlap. "\
+                        "Please make sure that the sensors are synchronized correctly." \
+                        .format(referenceImu.imuConfig.getRosTopic(), self.imuConfig.getRosTopic()))
+            sys.exit(-1)
             
         #define the optimization 
         options = aopt.Optimizer2Options()
-- 
2.43.0


From ba4df9db248ae57d3607909154159449535c189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 121/138] fix: several IMU yamls without models crashed instead
 of being refused

---
 .../kalibr/python/kalibr_calibrate_imu_camera                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_calibrate_imu_camera b/aslam_offline_calibration/kalibr/python/kalibr_calibrate_imu_camera
index 85aa113..17a3f67 100755
--- a/aslam_offline_calibration/kalibr/python/kalibr_calibrate_imu_camera
+++ b/aslam_offline_calibration/kalibr/python/kalibr_calibrate_imu_camera
@@ -138,7 +138,7 @@ def main():
     if  len(parsed.imu_yamls) == 1 and not parsed.imu_models:
         #Maintain backwards compatibility with previous interface.
         parsed.imu_models = ['calibrated']
-    elif len(parsed.imu_yamls) != len(parsed.imu_models):
+    elif not parsed.imu_models or len(parsed.imu_yamls) != len(parsed.imu_models):
         sm_python.logError("Number of IMU yamls and models has to match.")
         sys.exit(2)
     
-- 
2.43.0


From 6852284a1c097a82c34f2bd536ae4f5cf34fa610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 122/138] fix: the rolling shutter calibration could not be
 imported under Python 3

---
 .../kalibr/python/kalibr_calibrate_rs_cameras               | 1 -
 .../python/kalibr_rs_camera_calibration/RsCalibrator.py     | 6 +++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras b/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras
index fe9d5ad..b9befcc 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras
+++ b/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras
@@ -12,7 +12,6 @@ import kalibr_common as kc
 import kalibr_camera_calibration as kcc
 import kalibr_rs_camera_calibration as rscc
 
-import cv
 import cv2
 import os
 import numpy as np
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
index 5e0c706..6f5c4ed 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
@@ -11,9 +11,9 @@ import multiprocessing
 import sys
 import gc
 import math
-from ReprojectionErrorKnotSequenceUpdateStrategy import *
-from RsPlot import plotSpline
-from RsPlot import plotSplineValues
+from kalibr_rs_camera_calibration.ReprojectionErrorKnotSequenceUpdateStrategy import *
+from kalibr_rs_camera_calibration.RsPlot import plotSpline
+from kalibr_rs_camera_calibration.RsPlot import plotSplineValues
 import pylab as pl
 import pdb
 
-- 
2.43.0


From e1433b882a04ffa97a1f92bdd588e5ace8372566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 123/138] fix: a view without a pose estimate ended the rolling
 shutter calibration

---
 .../kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
index 6f5c4ed..552f9d6 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
@@ -202,7 +202,7 @@ class RsCalibrator(object):
             if (success):
                 observation.set_T_t_c(T_t_c)
             else:
-                sm_python.logWarn("Could not estimate T_t_c for observation at index" . idx)
+                sm_python.logWarn("Could not estimate T_t_c for observation at index {0}".format(idx))
 
         return
 
-- 
2.43.0


From 662c83f613d147e94a78a95e340647db0bea0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 124/138] fix: partial views of a target used the landmarks of
 other corners

---
 .../RsCalibrator.py                           | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
index 552f9d6..a955319 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
@@ -273,20 +273,23 @@ class RsCalibrator(object):
         self.__frames = []
         self.__reprojection_errors = []
 
-        # This code assumes that the order of the landmarks in the observations
-        # is invariant across all observations. At least for the chessboards it is true.
+        # The observations may contain different corners of the target (e.g. aprilgrids),
+        # the landmarks are identified by the index of the corner on the target.
 
         #####
         # add all the landmarks once
         landmarks = []
-        landmarks_expr = []
-        for landmark in self.__observations[0].getCornersTargetFrame():
-            # design variable for landmark
-            landmark_w_dv = aopt.HomogeneousPointDv(sm_python.toHomogeneous(landmark))
-            landmark_w_dv.setActive(self.__config.estimateParameters['landmarks']);
-            landmarks.append(landmark_w_dv)
-            landmarks_expr.append(landmark_w_dv.toExpression())
-            problem.addDesignVariable(landmark_w_dv, CALIBRATION_GROUP_ID)
+        landmarks_expr = {}
+        for observation in self.__observations:
+            for corner_id, landmark in zip(observation.getCornersIdx(), observation.getCornersTargetFrame()):
+                if corner_id in landmarks_expr:
+                    continue
+                # design variable for landmark
+                landmark_w_dv = aopt.HomogeneousPointDv(sm_python.toHomogeneous(landmark))
+                landmark_w_dv.setActive(self.__config.estimateParameters['landmarks']);
+                landmarks.append(landmark_w_dv)
+                landmarks_expr[corner_id] = landmark_w_dv.toExpression()
+                problem.addDesignVariable(landmark_w_dv, CALIBRATION_GROUP_ID)
 
         #####
         # activate design variables
@@ -322,7 +325,7 @@ class RsCalibrator(object):
 
                 #####
                 # add an error term for every observed corner
-                for index, point in enumerate(observation.getCornersImageFrame()):
+                for corner_id, point in zip(observation.getCornersIdx(), observation.getCornersImageFrame()):
                     # keypoint time offset by line delay as expression type
                     keypoint_time = self.__camera_dv.keypointTime(frame.time(), point)
 
@@ -335,14 +338,14 @@ class RsCalibrator(object):
                     T_t_w = T_w_t.inverse()
 
                     # transform target point to camera frame
-                    p_t = T_t_w * landmarks_expr[index]
+                    p_t = T_t_w * landmarks_expr[corner_id]
 
                     # create the keypoint
                     keypoint = acv.Keypoint2()
                     keypoint.setMeasurement(point)
                     inverseFeatureCovariance = self.__config.inverseFeatureCovariance;
                     keypoint.setInverseMeasurementCovariance(np.eye(len(point)) * inverseFeatureCovariance)
-                    keypoint.setLandmarkId(index)
+                    keypoint.setLandmarkId(int(corner_id))
                     frame.addKeypoint(keypoint)
                     keypoint_index = frame.numKeypoints() - 1
 
-- 
2.43.0


From 71d7b07a188da86b58a3c4d2a1717d37628ee085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 125/138] fix: calibrating a global shutter turned off shutters
 of later calibrations

---
 .../kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
index a955319..e774fba 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/RsCalibrator.py
@@ -76,7 +76,7 @@ class RsCalibratorConfiguration(object):
         """Validate the configuration."""
         # only rolling shutters can be estimated
         if (not isRollingShutter):
-            self.estimateParameters['shutter'] = False
+            self.estimateParameters = dict(self.estimateParameters, shutter=False)
             self.adaptiveKnotPlacement = False
 
 class RsCalibrator(object):
-- 
2.43.0


From d57d3e56a3d5f933bcf25fc517a7757cbf5960c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 126/138] fix: knot placement remembered disabled segments of
 earlier calibrations

---
 .../ReprojectionErrorKnotSequenceUpdateStrategy.py               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
index 9e298cc..31d2200 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
@@ -21,6 +21,7 @@ class ReprojectionErrorKnotSequenceUpdateStrategy(object):
 
     def __init__(self, framerate):
         self.__framerate = framerate
+        self.__disabledTimeSegments = []
         self.__maxKnotsPerSecond = 1/(2*self.__framerate)
 
     def generateKnotList(self, reprojection_errors, poseSpline):
-- 
2.43.0


From 743994fb26ea0ab70fc6945799b95b086d29d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 127/138] fix: the last knots were dropped when segments
 without observations were removed

---
 .../ReprojectionErrorKnotSequenceUpdateStrategy.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
index 31d2200..b22253f 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
@@ -38,7 +38,7 @@ class ReprojectionErrorKnotSequenceUpdateStrategy(object):
 
         [errorTermsPerSegmentFiltered, errorPerSegmentFiltered] = self.__getErrorPerSegment(times, errors, filteredKnots)
 
-        updatedKnots = self.__generateKnotSequence(errorPerSegmentFiltered, errorTermsPerSegmentFiltered, knots, disabledTimeSegments)
+        updatedKnots = self.__generateKnotSequence(errorPerSegmentFiltered, errorTermsPerSegmentFiltered, filteredKnots, disabledTimeSegments)
 
         if (self.__previousKnotSequence is None):
             requiresUpdate = True
-- 
2.43.0


From e1563ea48ca595155473f67ea86a7b85074ec4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 128/138] fix: the last knot was repeated and moved the end of
 the spline

---
 .../ReprojectionErrorKnotSequenceUpdateStrategy.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
index b22253f..9054afa 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
@@ -74,7 +74,7 @@ class ReprojectionErrorKnotSequenceUpdateStrategy(object):
         i = -1
         while oldKnots[i] > knots[-1]:
             i -= 1
-        knots = np.append(knots, oldKnots[i:])
+        knots = np.append(knots, oldKnots[len(oldKnots)+i+1:])
 
         newPoseSpline = aslam_bsplines_python.BSplinePose(splineOrder, poseSpline.rotation())
         newPoseSpline.initPoseSplineSparseKnots(times, splinePoses, np.array(knots), 1e-6)
-- 
2.43.0


From e7628d92f792a701e9b75d1f34fb44cce8c6ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 129/138] fix: segments were disabled by errors of other
 segments

---
 ...ojectionErrorKnotSequenceUpdateStrategy.py | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
index 9054afa..7b58e08 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
@@ -13,6 +13,8 @@ class ReprojectionErrorKnotSequenceUpdateStrategy(object):
 
     __previousErrorTerms = None
 
+    __previousErrorKnots = None
+
     __framerate = None
 
     __maxKnotsPerSecond = None
@@ -49,6 +51,7 @@ class ReprojectionErrorKnotSequenceUpdateStrategy(object):
         # keep a copy of the knot sequence
         self.__previousKnotSequence = np.copy(updatedKnots)
         self.__previousErrorTerms = errorPerSegmentFiltered
+        self.__previousErrorKnots = np.copy(filteredKnots)
         self.__disabledTimeSegments = disabledTimeSegments
 
         return [updatedKnots, requiresUpdate]
@@ -170,22 +173,14 @@ class ReprojectionErrorKnotSequenceUpdateStrategy(object):
 
         ## first compare the reprojection error in the "previous" segments
         # if we do not observe a significant drop. stop adding errors!
-        if self.__previousKnotSequence is not None and self.__previousErrorTerms is not None:
-            timeSegments = []
-            errorPerOldSegment = np.zeros(len(self.__previousKnotSequence))
-            segment = (-1,-1)
-            # analyse each section of the knot sequence:
-            # this kind of inefficient as it adds the same time segment multiple times...
-            for i, t in enumerate(times):
-                segment = self.__time2KnotSection(t, self.__previousKnotSequence, segment)
-                errorPerOldSegment[segment[0]] += errors[i]
-                timeSegments.append((self.__previousKnotSequence[segment[0]], self.__previousKnotSequence[segment[1]]))
+        if self.__previousErrorKnots is not None and self.__previousErrorTerms is not None:
+            # the error of this iteration in the segments of the previous one
+            [_, errorPerOldSegment] = self.__getErrorPerSegment(times, errors, self.__previousErrorKnots)
 
             # disabledTimeSegments = []
 
-            for i, pe in enumerate(self.__previousErrorTerms):
-                if pe * 0.8 < errorPerOldSegment[i]:
-                    disabledTimeSegments.append(timeSegments[i])
-                    pass
+            for i in range(len(self.__previousErrorKnots) - 1):
+                if self.__previousErrorTerms[i] * 0.8 < errorPerOldSegment[i]:
+                    disabledTimeSegments.append((self.__previousErrorKnots[i], self.__previousErrorKnots[i+1]))
 
         return disabledTimeSegments
-- 
2.43.0


From a233383565264c79a7b603f261a80da49cf29fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 130/138] fix: observations at the time of a knot counted for
 no segment

---
 .../ReprojectionErrorKnotSequenceUpdateStrategy.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
index 7b58e08..9c82c12 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py
@@ -156,7 +156,7 @@ class ReprojectionErrorKnotSequenceUpdateStrategy(object):
         if i == -1:
             i = 0
         while(i < len(knots)-1):
-            if knots[i] < t and knots[i+1] > t:
+            if knots[i] <= t and knots[i+1] > t:
                 return (i, i+1)
             i+=1
         return (-1,-1)
-- 
2.43.0


From 2473ac15228305c0d8ab129a9b0801fddb135fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 131/138] fix: the inverse feature variance was inverted again

---
 .../kalibr/python/kalibr_calibrate_rs_cameras                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras b/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras
index b9befcc..5f84c06 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras
+++ b/aslam_offline_calibration/kalibr/python/kalibr_calibrate_rs_cameras
@@ -72,7 +72,7 @@ def __parseArgs():
 
     %(prog)s --model pinhole-radtan-rs --target aprilgrid.yaml \\
               --bag MYROSBAG.bag --topic /cam0/image_raw \\
-              --feature-variance 1 --frame-rate 20
+              --inverse-feature-variance 1 --frame-rate 20
 
     example aprilgrid.yaml:
         target_type: 'aprilgrid'
@@ -162,7 +162,7 @@ def main():
 
     # Calibration Configuration
     config = rscc.RsCalibratorConfiguration()
-    config.inverseFeatureCovariance = 1.0/parsed.inverseFeatureVariance
+    config.inverseFeatureCovariance = parsed.inverseFeatureVariance
     config.maxNumberOfIterations = parsed.max_iter
     config.framerate = parsed.framerate
     config.timeOffsetConstantSparsityPattern = 0.08
-- 
2.43.0


From ef7a77f0e6b20cf2c5bba92576bd44a93873b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 132/138] fix: bag messages within 256 ns of each other were
 not sorted by time

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py           | 2 +-
 .../kalibr/python/kalibr_common/ImuDatasetReader.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index 7b9fe4d..a37a04d 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -61,7 +61,7 @@ class BagImageDatasetReader(object):
     timestamps = list()
     for idx in self.indices:
       topic, data, stamp = self.bag._read_message(self.index[idx].position)
-      timestamp = data.header.stamp.secs * 1e9 + data.header.stamp.nsecs
+      timestamp = data.header.stamp.secs * 10**9 + data.header.stamp.nsecs
       timestamps.append(timestamp)
       if self.perform_synchronization:
         self.timestamp_corrector.correctTimestamp(data.header.stamp.to_sec(),
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index 773ee4e..0cbe080 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -53,7 +53,7 @@ class BagImuDatasetReader(object):
         timestamps=list()
         for idx in self.indices:
             topic, data, stamp = self.bag._read_message(self.index[idx].position)
-            timestamp = data.header.stamp.secs*1e9 + data.header.stamp.nsecs
+            timestamp = data.header.stamp.secs*10**9 + data.header.stamp.nsecs
             timestamps.append(timestamp)
             if self.perform_synchronization:
                 self.timestamp_corrector.correctTimestamp(data.header.stamp.to_sec(), \
-- 
2.43.0


From 06445f9c940dde536f6d90e002b0b2c771af97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 133/138] fix: enabling a log stream could deadlock with a log
 statement reached first

---
 .../include/sm_logging/logging/LoggingGlobals.hpp  |  2 ++
 Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp b/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp
index 2f66ba9..b82ce28 100644
--- a/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp
+++ b/Schweizer-Messer/sm_logging/include/sm_logging/logging/LoggingGlobals.hpp
@@ -65,6 +65,8 @@ namespace sm {
              */
             void notifyLoggerLevelsChanged();
 
+            void notifyLoggerLevelsChangedNoLock();
+
         
             bool isNamedStreamEnabled( const std::string & name );
 
diff --git a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
index 70307ab..910a030 100644
--- a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
+++ b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
@@ -86,7 +86,11 @@ namespace sm {
         void LoggingGlobals::notifyLoggerLevelsChanged()
         {
             boost::mutex::scoped_lock lock(_locations_mutex);
-                    
+            notifyLoggerLevelsChangedNoLock();
+        }
+
+        void LoggingGlobals::notifyLoggerLevelsChangedNoLock()
+        {
             V_LogLocation::iterator it = _log_locations.begin();
             V_LogLocation::iterator end = _log_locations.end();
             for ( ; it != end; ++it )
@@ -105,18 +109,22 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
+            // lock in the same order as initializeLogLocation
+            boost::mutex::scoped_lock locations_lock(_locations_mutex);
             boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
             _namedStreamsEnabled.insert(name);
-            notifyLoggerLevelsChanged();
+            notifyLoggerLevelsChangedNoLock();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
+            // lock in the same order as initializeLogLocation
+            boost::mutex::scoped_lock locations_lock(_locations_mutex);
             boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
             std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
             if(it != _namedStreamsEnabled.end())
             {
                 _namedStreamsEnabled.erase(it);
-                notifyLoggerLevelsChanged();
+                notifyLoggerLevelsChangedNoLock();
             }
         }
 
-- 
2.43.0


From 4fb578f03c93c4b5c04d1f130402a1ae193c1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 134/138] fix: setLevel returned before the level was in force
 if another thread was setting it

---
 Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
index 910a030..115df0c 100644
--- a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
+++ b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
@@ -246,11 +246,11 @@ namespace sm {
 
         void LoggingGlobals::setLevel( sm::logging::levels::Level level )
         {
-            // \todo is this thread safe?
+            boost::mutex::scoped_lock lock(_locations_mutex);
             if(level != _level)
             {
                 _level = level;
-                notifyLoggerLevelsChanged();
+                notifyLoggerLevelsChangedNoLock();
             }
         }
 
-- 
2.43.0


From 7a8b99afc85a64d099e201f21e8a295f940e8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 135/138] fix: a logger could be destroyed by setLogger while
 another thread prints with it

---
 .../sm_logging/include/sm_logging/logging/console.hpp  |  4 ++--
 Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp     | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp b/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
index fb992a7..6585163 100644
--- a/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
+++ b/Schweizer-Messer/sm_logging/include/sm_logging/logging/console.hpp
@@ -177,7 +177,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
@@ -197,7 +197,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
diff --git a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
index 115df0c..9292d97 100644
--- a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
+++ b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
@@ -194,7 +194,8 @@ namespace sm {
 
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], _logger->currentTimeString() ) );
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -227,7 +228,8 @@ namespace sm {
             _printing_thread_id = boost::this_thread::get_id();
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -258,12 +260,12 @@ namespace sm {
         {
             if(logger.get())
             {
-                _logger = logger;
+                boost::atomic_store(&_logger, logger);
             }
         }
         boost::shared_ptr<Logger> LoggingGlobals::getLogger()
         {
-            return _logger;
+            return boost::atomic_load(&_logger);
         }
 
         sm::logging::levels::Level getLevel()
-- 
2.43.0


From 3bb689b4d5d2f60a17359ea003fee5a6b7afb681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 136/138] fix: after an exception of a logger that is no
 std::exception all further messages were lost

---
 .../sm_logging/src/LoggingGlobals.cpp           | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
index 9292d97..bd071f2 100644
--- a/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
+++ b/Schweizer-Messer/sm_logging/src/LoggingGlobals.cpp
@@ -6,6 +6,15 @@ namespace sm {
 
         LoggingGlobals g_logging_globals;
 
+        namespace {
+            /// Marks the current thread as the one that prints, until it leaves the scope in any way.
+            struct PrintingThread {
+                PrintingThread(boost::thread::id & id) : _id(id) { _id = boost::this_thread::get_id(); }
+                ~PrintingThread() { _id = boost::thread::id(); }
+                boost::thread::id & _id;
+            };
+        } // namespace
+
 
 
         LoggingGlobals::LoggingGlobals()
@@ -183,7 +192,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThread printing_thread(_printing_thread_id);
 
             va_list args;
             va_start(args, fmt);
@@ -202,8 +211,6 @@ namespace sm {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
                     
-
-            _printing_thread_id = boost::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -225,7 +232,7 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThread printing_thread(_printing_thread_id);
             try
             {
                 boost::shared_ptr<Logger> logger = getLogger();
@@ -235,8 +242,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-            _printing_thread_id = boost::thread::id();
         }
 
 
-- 
2.43.0


From b046519d6a76dd98d6f7de9612597d0dbce70ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 137/138] fix: marginalization left out one residual too many

The range of the left part is spanned by the first rank columns of Q.
Column number n was taken as well, hence one combination of the
residuals was lost: the step was no least squares solution, the
information was too small, and systems with just enough rows were
found deficient or refused.
---
 .../aslam_incremental_calibration/src/algorithms/linalg.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp
index bfc8073..5f35a07 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp
@@ -306,7 +306,7 @@ namespace aslam {
         throw InvalidOperationException("SuiteSparseQR_qmult failed",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
       try {
-        *A_rtQ = columnSubmatrix(A_rtQFull, 0, factor->QRsym->n, cholmod);
+        *A_rtQ = columnSubmatrix(A_rtQFull, 0, factor->rank - 1, cholmod);
       }
       catch (const InvalidOperationException& e) {
         cholmod_l_free_sparse(&A_rtQFull, cholmod);
@@ -375,7 +375,7 @@ namespace aslam {
       }
       cholmod_sparse* Qtb;
       try {
-        Qtb = rowSubmatrix(QtbFull, 0, factor->QRsym->n, cholmod);
+        Qtb = rowSubmatrix(QtbFull, 0, factor->rank - 1, cholmod);
       }
       catch (const InvalidOperationException& e) {
         cholmod_l_free_sparse(&A_rtb, cholmod);
-- 
2.43.0


From 3a18099bbac3f526b52ae48ba6cb566ec38981b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 138/138] fix: removing the only batch of an estimator threw
 and kept its information

reoptimize throws without any batch, and a batch added afterwards was
compared with the information of the one removed and hence rejected.
---
 .../core/IncrementalEstimator.h               |  2 ++
 .../src/core/IncrementalEstimator.cpp         | 33 +++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/core/IncrementalEstimator.h b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/core/IncrementalEstimator.h
index 1c69709..5784bb5 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/core/IncrementalEstimator.h
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/core/IncrementalEstimator.h
@@ -248,6 +248,8 @@ namespace aslam {
       void orderMarginalizedDesignVariables();
       /// Restores the linear solver
       void restoreLinearSolver();
+      /// Forgets the results of the last batch
+      void clearStatistics();
       /** @}
         */
 
diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalEstimator.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalEstimator.cpp
index 4f9ac48..ba48ab1 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -473,8 +473,11 @@ namespace aslam {
       // remove the batch
       _problem->remove(idx);
 
-      // reoptimize
-      reoptimize();
+      // reoptimize, or start anew if nothing is left
+      if (_problem->getNumOptimizationProblems() > 0)
+        reoptimize();
+      else
+        clearStatistics();
     }
 
     void IncrementalEstimator::removeBatch(const BatchSP& batch) {
@@ -504,6 +507,32 @@ namespace aslam {
       }
     }
 
+    void IncrementalEstimator::clearStatistics() {
+      _informationGain = 0.0;
+      _svLog2Sum = 0.0;
+      _nobsBasis.resize(0, 0);
+      _nobsBasisScaled.resize(0, 0);
+      _obsBasis.resize(0, 0);
+      _obsBasisScaled.resize(0, 0);
+      _sigma2Theta.resize(0, 0);
+      _sigma2ThetaScaled.resize(0, 0);
+      _sigma2ThetaObs.resize(0, 0);
+      _sigma2ThetaObsScaled.resize(0, 0);
+      _singularValues.resize(0);
+      _singularValuesScaled.resize(0);
+      _svdTolerance = 0.0;
+      _qrTolerance = -1.0;
+      _rankTheta = -1;
+      _rankThetaDeficiency = -1;
+      _rankPsi = -1;
+      _rankPsiDeficiency = -1;
+      _peakMemoryUsage = 0;
+      _memoryUsage = 0;
+      _numFlops = 0.0;
+      _initialCost = 0.0;
+      _finalCost = 0.0;
+    }
+
     void IncrementalEstimator::restoreLinearSolver() {
       // init the matrix structure
       std::vector<aslam::backend::DesignVariable*> dvs;
-- 
2.43.0

