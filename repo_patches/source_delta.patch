From a0bcc7beb292d7d2cd02cc00f56bf57eef1925b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 01/79] fix: InterthreadQueue::iqWaitForEither spun forever
 holding the lock once its timeout passed

---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..b881061 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining < 2) { return; }	// Timed out; same precision as read(timeout).
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From 8467a4550c1d34caf77126c4b77ebb6ba69df1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 02/79] fix: InterthreadQueueWithWait woke only one of several
 threads in wait()

---
 Interthread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index b881061..b7dda47 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -345,7 +345,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		while (mQ.size()>0) freeElement((T*)mQ.get());
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 	}
 
 
@@ -372,7 +372,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock);
 			retVal = (T*)mQ.get();
 		}
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -397,7 +397,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock,remaining);
 		}
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -409,7 +409,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
-- 
2.43.0


From 18b780393ff824f6faba1e76c95129cde16fec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 03/79] fix: InterthreadQueue handed out the wrong lock for
 iteration after iqConnect

---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index b7dda47..f64e40b 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From aa884e803a76be93d1b07d3033cefc07c83bf0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 04/79] fix: Timeval::future could leave 1000000 in the
 microseconds field, an invalid timespec

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From 4a2df65e533b4062feab32f8c7338352875c6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 05/79] fix: Timeval::delta overflowed for differences of more
 than 24 days

---
 Timeval.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..dd7bdc4 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -72,10 +72,9 @@ double Timeval::seconds() const
 
 long Timeval::delta(const Timeval& other) const
 {
-	// 2^31 milliseconds is just over 4 years.
 	int32_t deltaS = other.sec() - sec();
 	int32_t deltaUs = other.usec() - usec();
-	return 1000*deltaS + deltaUs/1000;
+	return 1000*(long)deltaS + deltaUs/1000;	// long, or 32 bits overflow after 24 days.
 }
 	
 
-- 
2.43.0


From 5c1632cb788898092669d8c61e87cd62d3a6cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 06/79] fix: Mutex::timedlock reported any error other than a
 timeout as an acquired lock

---
 Threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..de56c98 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -125,7 +125,7 @@ bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
-- 
2.43.0


From 15c3009e272f97558330e8f46e5fc0f4be9293b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 07/79] fix: Mutex::timedlock did not count the lock which
 unlock() uncounts

---
 Threads.cpp | 15 +++++++++++++--
 Threads.h   |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index de56c98..fa4c544 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -121,13 +121,24 @@ bool Mutex::trylock(const char *file, unsigned line)
 }
 
 // Returns true if the lock was acquired within the timeout, or false if it timed out.
-bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
+bool Mutex::_timedlock(int msecs) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
 	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
 }
 
+bool Mutex::timedlock(int msecs)
+{
+	if (!_timedlock(msecs)) { return false; }
+	// Count the lock as lock() and trylock() do, because unlock() is going to uncount it.
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = NULL; mLockerLine[mLockCnt] = 0;
+	}
+	mLockCnt++;
+	return true;
+}
+
 // There is a chance here that the mLockerFile&mLockerLine
 // could change while we are printing it if multiple other threads are contending for the lock
 // and swapping the lock around while we are in here.
@@ -162,7 +173,7 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (!_timedlock(1000)) {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
diff --git a/Threads.h b/Threads.h
index 6e004ba..f9e4ba5 100644
--- a/Threads.h
+++ b/Threads.h
@@ -96,6 +96,7 @@ class Mutex {
 	~Mutex();
 
 	void _lock() { pthread_mutex_lock(&mMutex); }
+	bool _timedlock(int msecs);
 
 	// (pat) Like the above but report blocking; to see report you must set both Log.Level to DEBUG for both Threads.cpp and the file.
 	void lock(const char *file=0, unsigned line=0);
-- 
2.43.0


From 120aa25573bbdb975dbecce39a8413ff74a1b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 08/79] fix: Signal::wait left the mutex counted as locked by
 the waiting thread

---
 Threads.cpp | 2 ++
 Threads.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index fa4c544..da4693e 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -284,7 +284,9 @@ void Signal::wait(Mutex& wMutex, long timeout) const
 	if (timeout <= 0) { return; }	// (pat) Timeout passed already
 	Timeval then(timeout);
 	struct timespec waitTime = then.timespec();
+	wMutex.mLockCnt--;		// It is not locked by us while waiting.
 	pthread_cond_timedwait(&mSignal,&wMutex.mMutex,&waitTime);
+	wMutex.mLockCnt++;
 }
 
 struct wrapArgs
diff --git a/Threads.h b/Threads.h
index f9e4ba5..17c0f6b 100644
--- a/Threads.h
+++ b/Threads.h
@@ -250,7 +250,7 @@ class Signal {
 		Under Linux, spurious returns are possible.
 	*/
 	void wait(Mutex& wMutex) const
-		{ pthread_cond_wait(&mSignal,&wMutex.mMutex); }
+		{ wMutex.mLockCnt--; pthread_cond_wait(&mSignal,&wMutex.mMutex); wMutex.mLockCnt++; }	// Not locked by us while waiting.
 
 	void signal() { pthread_cond_signal(&mSignal); }
 
-- 
2.43.0


From 3c0a71bf675517706bbf847a10d8cd13bfe1faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 09/79] fix: InterthreadMap::size could not be instantiated
 (declared a ScopedLock named mLock)

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index f64e40b..9681f41 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -597,7 +597,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From 74f34d1088bb041e90a982baa5a289b2fa6c1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 10/79] fix: InterthreadMap destructor leaked the elements left
 in the map

---
 Interthread.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index 9681f41..7c3cdda 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,14 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+	public:
+	// Delete the contents here: the base class destructor can only call its own vdelete, which does nothing.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		typename InterthreadMap1<K,D*>::Map::iterator iter = this->mMap.begin();
+		for ( ; iter != this->mMap.end(); ++iter) { vdelete(iter->second); }
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From 922409b4a321cae6037099d86abd2702bc9f67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 11/79] fix: ScopedLockMultiple could deadlock by blocking
 while holding a mutex its caller owned

---
 Threads.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Threads.cpp b/Threads.cpp
index da4693e..df3e1fd 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -255,6 +255,10 @@ void ScopedLockMultiple::_restoreState() {
 }
 void ScopedLockMultiple::_lockAll() {
 	// Do not return until we have locked all three mutexes.
+	// Never block on one mutex while still holding another, including those the caller owned on entry;
+	// two threads doing that in different orders deadlock.  So try, and if that fails surrender all of them first.
+	if (_trylock(0) && _trylock(1) && _trylock(2)) return;
+	_unlock(2); _unlock(1); _unlock(0);
 	for (int n=0; true; n++) {
 		// Attempt to lock in order 0,1,2.
 		_lock(0); 						// Wait on 0, unless it was locked by us on entry.
-- 
2.43.0


From 6286ae5b22f83329cf3961d1be1a4c8e966a1bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 12/79] fix: RefCntBase::getRefCnt read the count without its
 lock, racing with other pointers

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 988235b..ec5f1dc 100644
--- a/Utils.h
+++ b/Utils.h
@@ -215,7 +215,7 @@ class RefCntBase {
 	public:
 	virtual ~RefCntBase();
 	RefCntBase() : mRefCnt(0) {}
-	int getRefCnt() const { return mRefCnt; }
+	int getRefCnt() const { ScopedLock lock(mRefMutex); return mRefCnt; }
 };
 
 // This is basically the same as a C++11 shared_ptr, but we cannot use C++ 11 yet.
-- 
2.43.0


From bb45dd6e5d7c23f58063a1d4d13b7d476e1f8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 13/79] fix: PointerFIFO never released its list nodes

---
 LinkedLists.cpp | 7 +++++++
 LinkedLists.h   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/LinkedLists.cpp b/LinkedLists.cpp
index 94e2533..9a01170 100644
--- a/LinkedLists.cpp
+++ b/LinkedLists.cpp
@@ -30,6 +30,13 @@
 #include "LinkedLists.h"
 
 
+PointerFIFO::~PointerFIFO()
+{
+	while (mHead) { ListNode *next = mHead->next(); delete mHead; mHead = next; }
+	while (mFreeList) { ListNode *next = mFreeList->next(); delete mFreeList; mFreeList = next; }
+}
+
+
 void PointerFIFO::push_front(void* val)	// by pat
 {
 	// Pat added this routine for completeness, but never used or tested.
diff --git a/LinkedLists.h b/LinkedLists.h
index 0e28c63..38eaef7 100644
--- a/LinkedLists.h
+++ b/LinkedLists.h
@@ -72,6 +72,9 @@ class PointerFIFO {
 		mSize(0)
 	{}
 
+	/** Release the nodes; the items in the FIFO are not deleted. */
+	~PointerFIFO();
+
 	unsigned size() const { return mSize; }
 	unsigned totalSize() const { return 0; }	// Not used in this version.
 
@@ -92,6 +95,10 @@ class PointerFIFO {
 
 	private:
 
+	// Not copyable: the nodes belong to exactly one FIFO.
+	PointerFIFO(const PointerFIFO&);
+	PointerFIFO& operator=(const PointerFIFO&);
+
 	/** Allocate a new node to extend the FIFO. */
 	ListNode *allocate();
 
-- 
2.43.0


From 1e33a6de50009c18d78bd9de60eb2fdaa4f94d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 14/79] fix: assigning a Vector to itself or to a part of
 itself destroyed its contents

---
 Vector.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..5b88977 100644
--- a/Vector.h
+++ b/Vector.h
@@ -150,6 +150,7 @@ template <class T> class VectorBase
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (this == &other) { return; }
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -162,7 +163,8 @@ template <class T> class VectorBase
 	{
 		if (this->getData()) {
 			assert(this->getData() != other.getData()); // Not possible by the semantics of Vector.
-			this->clear();
+			// If other refers to a part of our own memory, keep owning it.
+			if (other.mStart < this->mStart || other.mEnd > this->mEnd) { this->clear(); }
 		}
 		this->mStart=const_cast<T*>(other.mStart);
 		this->mEnd=const_cast<T*>(other.mEnd);
@@ -195,14 +197,24 @@ template <class T> class VectorBase
 
 	/** Copy data from another vector. */
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		// Copy before releasing our own memory, because other may be this vector or refer to a part of it.
+		const size_t newSize = other.size();
+		const T *source = other.mStart;
+		T *oldData = mData;
+		vInit(newSize);
+		memcpy(mData,source,newSize*sizeof(T));
+		delete[] oldData;
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-		this->resize(other1.size()+other2.size());
-		memcpy(this->mStart, other1.mStart, other1.bytes());
-		memcpy(this->mStart+other1.size(), other2.mStart, other2.bytes());
+		// As in clone, either one may be this vector or refer to a part of it.
+		const size_t size1 = other1.size(), size2 = other2.size();
+		const T *source1 = other1.mStart, *source2 = other2.mStart;
+		T *oldData = mData;
+		vInit(size1+size2);
+		memcpy(this->mStart, source1, size1*sizeof(T));
+		memcpy(this->mStart+size1, source2, size2*sizeof(T));
+		delete[] oldData;
 	}
 
 	protected:
-- 
2.43.0


From 46c9b4a0eb0f41e38d9e340fd5e157394888dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 15/79] fix: BitVector::invert produced values other than 0 and
 1

---
 BitVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index f29ef52..26a39d3 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -155,7 +155,7 @@ void BitVector::writeFieldReversed(size_t& writeIndex, uint64_t value, unsigned
 void BitVector::invert()
 {
 	for (size_t i=0; i<size(); i++) {
-		mStart[i] = ~mStart[i];
+		mStart[i] = (~mStart[i]) & 0x01;
 	}
 }
 
-- 
2.43.0


From 569d771f0a01fcf1460c7543120deeb5135f00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 16/79] fix: BitVector::unhex accepted white space as a hex
 digit

---
 BitVector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index 26a39d3..31b26a6 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -32,6 +32,7 @@
 #include <stdio.h>
 #include <sstream>
 #include <string.h>
+#include <ctype.h>
 #include <Logger.h>
 
 using namespace std;
@@ -430,7 +431,8 @@ bool BitVector::unhex(const char* src)
 	unsigned int val;
 	unsigned digits = size()/4;
 	for (unsigned i=0; i<digits; i++) {
-		if (sscanf(src+i, "%1x", &val) < 1) {
+		// isxdigit: sscanf alone would skip white space and read a later digit.
+		if (!isxdigit((unsigned char)src[i]) || sscanf(src+i, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(i*4,val,4);
@@ -438,7 +440,7 @@ bool BitVector::unhex(const char* src)
 	unsigned whole = digits*4;
 	unsigned rem = size() - whole;
 	if (rem>0) {
-		if (sscanf(src+digits, "%1x", &val) < 1) {
+		if (!isxdigit((unsigned char)src[digits]) || sscanf(src+digits, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(whole,val,rem);
-- 
2.43.0


From e8a9f39d354120f1b7f405d8f0aea755ce3c5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 17/79] fix: F16 assignment returned a different value than it
 assigned

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index 374c91a..2d98c63 100644
--- a/F16.h
+++ b/F16.h
@@ -82,7 +82,7 @@ class F16 {
 	F16 operator=(const F16& other)
 	{
 		mV = other.mV;
-		return mV;
+		return *this;
 	}
 
 	F16 operator+(const F16& other) const
-- 
2.43.0


From e604587b1c540b85f0edb4fee46588a4a81f8b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 18/79] fix: F16 arithmetic and conversions overflowed instead
 of saturating

---
 F16.h | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/F16.h b/F16.h
index 2d98c63..52afc6a 100644
--- a/F16.h
+++ b/F16.h
@@ -32,11 +32,27 @@
 
 
 
+/** Limit a raw value to what an F16 can hold. */
+inline int32_t _f16_sat(int64_t v)
+{
+	if (v>INT32_MAX) return INT32_MAX;
+	if (v<INT32_MIN) return INT32_MIN;
+	return (int32_t)v;
+}
+
+/** Limit a raw floating point value to what an F16 can hold, and truncate it. */
+inline int32_t _f16_sat(float f)
+{
+	if (f>=2147483648.0F) return INT32_MAX;
+	if (f<=-2147483648.0F) return INT32_MIN;
+	return (int32_t)f;
+}
+
 /** Round a float to the appropriate F16 value. */
 inline int32_t _f16_round(float f)
 {
-	if (f>0.0F) return (int32_t)(f+0.5F);
-	if (f<0.0F) return (int32_t)(f-0.5F);
+	if (f>0.0F) return _f16_sat(f+0.5F);
+	if (f<0.0F) return _f16_sat(f-0.5F);
 	return 0;
 }
 
@@ -55,7 +71,7 @@ class F16 {
 
 	F16() {}
 
-	F16(int i) { mV = i<<16; }
+	F16(int i) { mV = _f16_sat((int64_t)i*65536); }
 	F16(float f) { mV = _f16_round(f*65536.0F); }
 	F16(double f) { mV = _f16_round((float)f*65536.0F); }
 
@@ -75,7 +91,7 @@ class F16 {
 
 	F16 operator=(int i)
 	{
-		mV = i<<16;
+		mV = _f16_sat((int64_t)i*65536);
 		return *this;
 	}
 
@@ -88,26 +104,26 @@ class F16 {
 	F16 operator+(const F16& other) const
 	{
 		F16 retVal;
-		retVal.mV = mV + other.mV;
+		retVal.mV = _f16_sat((int64_t)mV + other.mV);
 		return retVal;
 	}
 
 	F16& operator+=(const F16& other)
 	{
-		mV += other.mV;
+		mV = _f16_sat((int64_t)mV + other.mV);
 		return *this;
 	}
 
 	F16 operator-(const F16& other) const
 	{
 		F16 retVal;
-		retVal.mV = mV - other.mV;
+		retVal.mV = _f16_sat((int64_t)mV - other.mV);
 		return retVal;
 	}
 
 	F16& operator-=(const F16& other)
 	{
-		mV -= other.mV;
+		mV = _f16_sat((int64_t)mV - other.mV);
 		return *this;
 	}
 
@@ -115,27 +131,27 @@ class F16 {
 	{
 		F16 retVal;
 		int64_t p = (int64_t)mV * (int64_t)other.mV;
-		retVal.mV = p>>16;
+		retVal.mV = _f16_sat(p>>16);
 		return retVal;
 	}
 
 	F16& operator*=(const F16& other)
 	{
 		int64_t p = (int64_t)mV * (int64_t)other.mV;
-		mV = p>>16;
+		mV = _f16_sat(p>>16);
 		return *this;
 	}
 
 	F16 operator*(float f) const
 	{
 		F16 retVal;
-		retVal.mV = mV * f;
+		retVal.mV = _f16_sat(mV * f);
 		return retVal;
 	}
 
 	F16& operator*=(float f)
 	{
-		mV *= f;
+		mV = _f16_sat(mV * f);
 		return *this;
 	}
 
@@ -143,27 +159,27 @@ class F16 {
 	{
 		F16 retVal;
 		int64_t pV = (int64_t)mV << 16;
-		retVal.mV = pV / other.mV;
+		retVal.mV = _f16_sat(pV / other.mV);
 		return retVal;
 	}
 
 	F16& operator/=(const F16& other)
 	{
 		int64_t pV = (int64_t)mV << 16;
-		mV = pV / other.mV;
+		mV = _f16_sat(pV / other.mV);
 		return *this;
 	}
 
 	F16 operator/(float f) const
 	{
 		F16 retVal;
-		retVal.mV = mV / f;
+		retVal.mV = _f16_sat(mV / f);
 		return retVal;
 	}
 
 	F16& operator/=(float f)
 	{
-		mV /= f;
+		mV = _f16_sat(mV / f);
 		return *this;
 	}
 
-- 
2.43.0


From fc21aaf7733902f8754cd4081e83d92ac6a52d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 19/79] fix: sqlite3util put keys and values into sql unescaped
 and truncated, so quotes in them changed the query

---
 sqlite3util.cpp | 44 +++++++++++++++++++++++---------------------
 sqlite3util.h   |  3 +++
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..f19cf4a 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -85,12 +85,22 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
+// Return text as an sql string literal, including the quotes.  The only character that needs escaping is the quote itself.
+string sqlite_quote(const string &text)
+{
+	string result("'");
+	for (size_t i = 0; i < text.size(); i++) {
+		if (text[i] == '\'') { result += '\''; }
+		result += text[i];
+	}
+	return result + "'";
+}
+
 // condition buffer is size 100 minimum.
 static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+static string condition_c(const char *keyName, const char*keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	return string("WHERE ") + keyName + " == " + sqlite_quote(keyValue);
 }
 
 static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
@@ -108,7 +118,7 @@ void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultCo
 	//char query[stringSize];
 	//snprintf(query,stringSize,"SELECT %s FROM %s %s",resultColumns,tableName,condition);
 	// We save the query in a string so the caller can print it out in error messages if the query fails.
-	mQueryString = format("SELECT %s FROM %s %s",resultColumns,tableName,condition);
+	mQueryString = string("SELECT ") + resultColumns + " FROM " + tableName + " " + condition;
 	// Prepare the statement.
 	if (sqlite3_prepare_statement(mdb,&mStmt,mQueryString.c_str(),retries)) { mStmt = NULL; return; }
 	// Read the result.
@@ -138,8 +148,7 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -166,12 +175,10 @@ sqlite3_int64 sqlQuery::getResultInt(int colNum)
 bool sqlite3_exists(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT * FROM %s WHERE %s == \"%s\"",tableName,keyName,keyData);
+	string query = string("SELECT * FROM ") + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	sqlite3_finalize(stmt);
@@ -185,12 +192,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData,
 		const char* valueName, unsigned &valueData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -317,12 +322,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	snprintf(query,stringSize,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -370,9 +373,8 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	string query = "REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES(" + sqlite_quote(attr_name) + "," + sqlite_quote(attr_value) + ")";
+	if (! sqlite3_command(db,query.c_str())) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
diff --git a/sqlite3util.h b/sqlite3util.h
index bc14318..69f072d 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -63,6 +63,9 @@ class sqlQuery {
 	~sqlQuery();
 };
 
+// Return text as an sql string literal, quotes included, with any quotes in the text escaped.
+std::string sqlite_quote(const std::string &text);
+
 // (pat) These functions should probably not begin with "sqlite3_" since that is reserved for sqlite3 itself...
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries = 5);
 
-- 
2.43.0


From b16a1a7fd260d6d4f3810f8438369187aba95b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 20/79] fix: ConfigurationTable refused or misdirected keys,
 values and patterns containing quotes

---
 Configuration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2488a6b..9439e76 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -833,7 +833,7 @@ bool ConfigurationTable::remove(const string& key)
 	ConfigurationMap::iterator where = mCache.find(key);
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
-	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=='"+key+"'";
+	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=="+sqlite_quote(key);
 	return sqlite3_command(mDB,cmd.c_str());
 }
 
@@ -842,7 +842,7 @@ bool ConfigurationTable::remove(const string& key)
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
-	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE \"%" + pat + "%\"";
+	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE " + sqlite_quote("%" + pat + "%");
 	sqlite3_stmt *stmt;
 	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return;
 	// Read the result.
@@ -895,9 +895,9 @@ bool ConfigurationTable::set(const string& key, const string& value)
 	ScopedLock lock(mLock);
 	string cmd;
 	if (keyDefinedInSchema(key)) {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (\"" + key + "\",\"" + value + "\",1,\'" + mSchema[key].getDescription() + "\')";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (" + sqlite_quote(key) + "," + sqlite_quote(value) + ",1," + sqlite_quote(mSchema[key].getDescription()) + ")";
 	} else {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (\"" + key + "\",\"" + value + "\",1)";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (" + sqlite_quote(key) + "," + sqlite_quote(value) + ",1)";
 	}
 	
 	bool success = sqlite3_command(mDB,cmd.c_str());
-- 
2.43.0


From 99ba624af0c9230caf690dea4aea4c8a6506d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 21/79] fix: ConfigurationTable::remove claimed to have removed
 keys which were not there

---
 Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 9439e76..7740257 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -834,7 +834,7 @@ bool ConfigurationTable::remove(const string& key)
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
 	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=="+sqlite_quote(key);
-	return sqlite3_command(mDB,cmd.c_str());
+	return sqlite3_command(mDB,cmd.c_str()) && sqlite3_changes(mDB) > 0;
 }
 
 
-- 
2.43.0


From 812e67a77dad9360d91479f688064a6fde203a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 22/79] fix: ConfigurationTable::getDefaultSQL generated
 invalid sql for texts containing quotes

---
 Configuration.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 7740257..ac07615 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -231,9 +231,9 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 	while (mp != mSchema.end()) {
 		ss << "INSERT OR IGNORE INTO \"CONFIG\" VALUES(";
 			// name
-			ss << "'" << mp->first << "',";
+			ss << sqlite_quote(mp->first) << ",";
 			// default
-			ss << "'" << mp->second.getDefaultValue() << "',";
+			ss << sqlite_quote(mp->second.getDefaultValue()) << ",";
 			// static
 			if (mp->second.isStatic()) {
 				ss << "1";
@@ -244,19 +244,14 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 			// optional
 			ss << "0,";
 			// description
-			const string description = mp->second.getDescription();
-			// Try to use a quote that will work: if the description contains ' quote with " else '.
-			// This is not perfect because these quotes could themselves be quoted.
-			const char * quote = string::npos != description.find('\'') ? "\"" : "'";
-			ss << quote;
+			string description = mp->second.getDescription();
 			if (mp->second.getType() == ConfigurationKey::BOOLEAN) {
-				ss << "1=enabled, 0=disabled - ";
+				description = "1=enabled, 0=disabled - " + description;
 			}
-			ss << mp->second.getDescription();
 			if (mp->second.isStatic()) {
-				ss << "  Static.";
+				description += "  Static.";
 			}
-			ss << quote;
+			ss << sqlite_quote(description);
 		ss << ");" << endl;
 		mp++;
 	}
-- 
2.43.0


From 661c8fe0fc9631dd3860a7b8cf2e3fa6a818dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 23/79] fix: ConfigurationTables shared one cache age, so only
 one of them ever saw changes made by others

---
 Configuration.cpp | 6 +++---
 Configuration.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index ac07615..d442e21 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -94,6 +94,7 @@ float ConfigurationRecord::floatNumber() const
 
 
 ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdName, ConfigurationKeyMap wSchema)
+	: mTimeOfLastPurge(0)
 {
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
 	// Connect to the database.
@@ -911,12 +912,11 @@ bool ConfigurationTable::set(const string& key, long value)
 void ConfigurationTable::checkCacheAge()
 {
 	// mLock is set by caller 
-	static time_t timeOfLastPurge = 0;
 	time_t now = time(NULL);
 	// purge every 3 seconds
 	// purge period cannot be configuration parameter
-	if (now - timeOfLastPurge < 3) return;
-	timeOfLastPurge = now;
+	if (now - mTimeOfLastPurge < 3) return;
+	mTimeOfLastPurge = now;
 	// this is purge() without the lock
 	ConfigurationMap::iterator mp = mCache.begin();
 	while (mp != mCache.end()) {
diff --git a/Configuration.h b/Configuration.h
index 5f6004d..b8be10f 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -196,6 +196,7 @@ class ConfigurationTable {
 
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
+	time_t mTimeOfLastPurge;	///< when checkCacheAge last emptied the cache
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
 
-- 
2.43.0


From a97007cec56c1e9040dcab4bc435438351179528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 24/79] fix: ConfigurationTable::isValidValue added an
 uninitialized key to the schema when asked about an unknown key

---
 Configuration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index d442e21..eb5ba31 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -357,7 +357,9 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
-	ConfigurationKey key = mSchema[name];
+	ConfigurationKeyMap::const_iterator where = mSchema.find(name);
+	if (where == mSchema.end()) return false;
+	const ConfigurationKey &key = where->second;
 
 	switch (key.getType()) {
 		case ConfigurationKey::BOOLEAN: {
-- 
2.43.0


From c3864fe6e11847ec0ec1c06503849f0c832eeeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 25/79] fix: configuration choices without a description were
 not recognized

---
 Configuration.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index eb5ba31..28abb0f 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -377,22 +377,17 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 		case ConfigurationKey::CHOICE: {
 			int startPos = -1;
-			uint endPos = 0;
+			size_t endPos = 0;
 
 			std::string tmp = key.getValidValues();
 
 			do {
 				startPos++;
-				if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
-					if (val == tmp.substr(startPos, endPos-startPos)) {
-						ret = true;
-						break;
-					}
-				} else {
-					if (val == tmp.substr(startPos, tmp.find(',', startPos)-startPos)) {
-						ret = true;
-						break;
-					}
+				// the value ends at the description or, if it has none, at the next choice
+				endPos = tmp.find_first_of("|,", startPos);
+				if (val == tmp.substr(startPos, endPos-startPos)) {
+					ret = true;
+					break;
 				}
 
 			} while ((startPos = tmp.find(',', startPos)) != (int)std::string::npos);
@@ -1239,11 +1234,12 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 
 	} else if (key.getType() == ConfigurationKey::CHOICE) {
 		int startPos = -1;
-		uint endPos = 0;
+		size_t endPos = 0;
 
 		do {
 			startPos++;
-			if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
+			endPos = tmp.find_first_of("|,", startPos);
+			if (endPos != std::string::npos && tmp[endPos] == '|') {
 				os << " - valid values:     " << tmp.substr(startPos, endPos-startPos);
 				os << " = " << tmp.substr(endPos+1, tmp.find(',', endPos)-endPos-1) << std::endl;
 			} else {
-- 
2.43.0


From 641096bf8e4d5721e78116c643c41954ba16b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 26/79] fix: configuration validation accepted ports, masks and
 addresses with missing or trailing parts

---
 Configuration.cpp | 65 ++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 28abb0f..4bbe833 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -31,6 +31,8 @@
 #include <fstream>
 #include <iostream>
 #include <string.h>
+#include <errno.h>
+#include <limits.h>
 
 #ifdef DEBUG_CONFIG
 #define	debugLogEarly gLogEarly
@@ -354,6 +356,16 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 	return mSchema.find(name) == mSchema.end() ? false : true;
 }
 
+// Convert a string which must consist of decimal digits only, return -1 if it does not or if the number is too large.
+static int parseDigits(const std::string& str)
+{
+	if (str.empty() || str.find_first_not_of("0123456789") != std::string::npos) return -1;
+	errno = 0;
+	long result = strtol(str.c_str(),NULL,10);
+	if (errno || result > INT_MAX) return -1;
+	return result;
+}
+
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
@@ -401,14 +413,14 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CIDR: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int cidr = -1;
 
 			delimiter = val.find('/');
 			if (delimiter != std::string::npos) {
 				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> cidr;
+				cidr = parseDigits(val.substr(delimiter+1));
 				if (ConfigurationKey::isValidIP(ip) && 0 <= cidr && cidr <= 32) {
 					ret = true;
 				}
@@ -445,7 +457,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::HOSTANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string host;
 			int port = -1;
 			bool validHost = false;
@@ -453,7 +465,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			delimiter = val.find(':');
 			if (delimiter != std::string::npos) {
 				host = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
+				port = parseDigits(val.substr(delimiter+1));
 				if (ConfigurationKey::isValidIP(host)) {
 					validHost = true;
 				} else {
@@ -490,14 +502,14 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 
 		case ConfigurationKey::IPANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int port = -1;
 
 			delimiter = val.find(':');
 			if (delimiter != std::string::npos) {
 				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
+				port = parseDigits(val.substr(delimiter+1));
 				if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
 					ret = true;
 				}
@@ -512,37 +524,24 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::MIPADDRESS: {
-			int startPos = -1;
-			uint endPos = 0;
-			uint delimiter;
-			std::string ip;
-			int port = -1;
+			size_t startPos = 0;
+			size_t endPos;
+			size_t delimiter;
+			std::string item;
 
 			do {
-				startPos++;
 				endPos = val.find(' ', startPos);
-				port = -1;
+				item = val.substr(startPos, endPos == std::string::npos ? endPos : endPos-startPos);
+				delimiter = item.find(':');
 
-				if (ConfigurationKey::isValidIP(val.substr(startPos, endPos-startPos))) {
-					ret = true;
-				} else {
-					delimiter = val.find(':');
-					if (delimiter != std::string::npos) {
-						ip = val.substr(startPos, delimiter);
-						std::stringstream(val.substr(delimiter+1, endPos)) >> port;
-						if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
-							ret = true;
-						} else {
-							ret = false;
-							break;
-						}
-					} else {
-						ret = false;
-						break;
-					}
+				ret = ConfigurationKey::isValidIP(item.substr(0, delimiter));
+				if (ret && delimiter != std::string::npos) {
+					int port = parseDigits(item.substr(delimiter+1));
+					ret = 1 <= port && port <= 65535;
 				}
 
-			} while ((startPos = endPos) != (int)std::string::npos);
+				startPos = endPos+1;
+			} while (ret && endPos != std::string::npos);
 			break;
 		}
 
@@ -553,9 +552,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::PORT: {
-			int intVal;
-
-			std::stringstream(val) >> intVal;
+			int intVal = parseDigits(val);
 
 			if (1 <= intVal && intVal <= 65535) {
 				ret = true;
-- 
2.43.0


From 79853349756a80bd30665010c0c9648a4fc36c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 27/79] fix: configuration value ranges accepted text which
 only begins with a number

---
 Configuration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 4bbe833..e86bc2e 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1064,7 +1064,9 @@ template<class T> bool ConfigurationKey::isInValRange(const ConfigurationKey &ke
 	std::string strMax;
 	std::string strSteps;
 
-	std::stringstream(val) >> convVal;
+	// The whole value must be one number, which fits.
+	std::stringstream valStream(val);
+	if (!(valStream >> convVal) || valStream.peek() != EOF) return false;
 
 	ConfigurationKey::getMinMaxStepping(key, strMin, strMax, strSteps);
 	std::stringstream(strMin) >> min;
-- 
2.43.0


From 034c2b745212146d376219a05a949cd705afbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 28/79] fix: key descriptions listed the same-across-neighbors
 scope twice

---
 Configuration.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index e86bc2e..9b6f1a9 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1272,9 +1272,6 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 		if (scope & ConfigurationKey::NEIGHBORSSAME) {
 			os << " - scope:            value must be the same across all neighbors" << std::endl;
 		}
-		if (scope & ConfigurationKey::NEIGHBORSSAME) {
-			os << " - scope:            must be the same across all neighbors" << std::endl;
-		}
 		if (scope & ConfigurationKey::NODESPECIFIC) {
 			os << " - scope:            specific to each individual node" << std::endl;
 		}
-- 
2.43.0


From 5a2a29ccd21083d6619a5927fdd711dd9de861d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:23 +0000
Subject: [PATCH 29/79] fix: LogGroup::setAll used level names after they were
 freed

---
 Logger.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..5a0dfb4 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -374,12 +374,12 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+// Return an empty string if the parameter is not defined.
+static string getNonEmptyStrIfDefined(string param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
+	if (! gConfig.defines(param)) { return string(""); }
 	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	return gConfig.getStr(param);
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -392,7 +392,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		string levelName = getNonEmptyStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -401,7 +402,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		string levelName = getNonEmptyStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0


From 46cd7bde1de87f45fd55b3678f5ede77827744bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 30/79] fix: URLEncode wrote wrong digits for nibbles above 9

---
 URLEncode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..f66a9cd 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,7 +32,7 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
-- 
2.43.0


From 386392c8c4b4f3e7deeb841fbcb4275bd8348e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 31/79] fix: URLEncode left NUL characters unencoded

---
 URLEncode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index f66a9cd..ef6c8b9 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -37,7 +37,7 @@ string URLEncode(const string &c)
 	for (size_t i=0; i<c.length(); i++)
 	{
 		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		if (isalnum((unsigned char)ch) || (ch && strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From 1c1016e0ffb4a9e78cf3b022fff70a2c94d45527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 32/79] fix: format lost the last character of results of 199
 characters

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..952283b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -134,7 +134,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -177,7 +177,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From 4e0545b898bf80f9e4e5d3cf561a378613fd6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 33/79] fix: myscanf for one string returned uninitialized
 memory if nothing matched

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 952283b..fc57b19 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -199,7 +199,7 @@ int myscanf(const char *str, const char *fmt, string *s1)
 	int maxlen = strlen(str)+1;
 	char *a1 = (char*)alloca(maxlen);
 	int n = sscanf(str,fmt,a1);
-	s1->assign(a1);
+	if (n == 1) { s1->assign(a1); }
 	return n;
 }
 int myscanf(const char *str, const char *fmt, string *s1, string *s2)
-- 
2.43.0


From af53064471b69a4f571953e8bf816782f590b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 34/79] fix: replaceAll ended by an exception and an error
 message instead of noticing the last match

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index fc57b19..45bd2ed 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -477,7 +477,7 @@ ostream& operator<<(std::ostream& os, const Statistic<double> &stat) { stat.text
 string replaceAll(const std::string input, const std::string search, const std::string replace)
 {
 	string output = input;
- 	unsigned index1 = 0;
+ 	size_t index1 = 0;
 
 	while (index1 < output.size()) {
 	  try {
-- 
2.43.0


From 3f8a8da0ffeb60e8ed573b992e554aff4c3e701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 35/79] fix: replaceAll did not terminate for an empty search
 string

---
 Utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utils.cpp b/Utils.cpp
index 45bd2ed..d9d2942 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -477,6 +477,7 @@ ostream& operator<<(std::ostream& os, const Statistic<double> &stat) { stat.text
 string replaceAll(const std::string input, const std::string search, const std::string replace)
 {
 	string output = input;
+	if (search.empty()) { return output; }	// There is nothing to replace; the loop below would never end.
  	size_t index1 = 0;
 
 	while (index1 < output.size()) {
-- 
2.43.0


From 099b8b1167f015d87b9ad7ff5041d935261fd01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 36/79] fix: stringSplit dropped everything after the 40th word

---
 Utils.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index d9d2942..1d24054 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -401,15 +401,12 @@ char *cstrGetArg(const char *in, int nth, unsigned *length)
 
 vector<string>& stringSplit(vector<string> &result,const char *input)
 {
-	char *argv[40];
-	//char buf[202];
-	//strncpy(buf,input,200); buf[200] = 0;
-	char *buf = strdup(input);
-	int cnt = cstrSplit(buf,argv,40,NULL);
-	for (int i = 0; i < cnt; i++) {
-		result.push_back(string(argv[i]));
+	const char *splitchars = " \t\r\n";	// As in cstrSplit, but here there is no limit on the number of words.
+	while (*(input += strspn(input,splitchars))) {
+		size_t len = strcspn(input,splitchars);
+		result.push_back(string(input,len));
+		input += len;
 	}
-	free(buf);
 	return result;
 }
 
-- 
2.43.0


From 3291f36d39b5ecfc3922a5b81e57e0fd725d1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 37/79] fix: names of encodings were compared case sensitively
 in spite of stringCaseInsensitive

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 1d24054..a903b12 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -29,8 +29,8 @@ namespace Utils {
 using namespace std;
 
 struct stringCaseInsensitive : public string {
-	bool operator==(string &other) { return 0==strcasecmp(this->c_str(),other.c_str()); }
-	bool operator!=(string &other) { return 0!=strcasecmp(this->c_str(),other.c_str()); }
+	bool operator==(const char *other) const { return 0==strcasecmp(this->c_str(),other); }
+	bool operator!=(const char *other) const { return 0!=strcasecmp(this->c_str(),other); }
 	stringCaseInsensitive(string &other) : string(other) {}
 	stringCaseInsensitive(const char* &other) : string(other) {}
 };
-- 
2.43.0


From 50b77df7d02b6bab7815fdcc2880cfa73f72ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 38/79] fix: HashString greater-than compared less-than

---
 Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.h b/Configuration.h
index b8be10f..34ca8d6 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -171,7 +171,7 @@ class HashString : public std::string {
 
 	bool operator>(const HashString& other)
 	{
-		return mHash<other.mHash;
+		return mHash>other.mHash;
 	}
 
 	uint64_t hash() const { return mHash; }
-- 
2.43.0


From 76a7e372852ba9fc1de86175273c4157c5735def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 39/79] fix: SimpleKeyValue::getNum never reported a valid
 number

---
 Configuration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Configuration.cpp b/Configuration.cpp
index 9b6f1a9..976f2c6 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1008,6 +1008,7 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 {
 	HashStringMap::const_iterator p = mMap.find(key);
 	if (p==mMap.end()) { valid = false; return 0; }
+	valid = true;
 	// TODO: we should verify it is really a number.
 	return atol(p->second.c_str());
 }
-- 
2.43.0


From 2dd8c783e4cc5208da851c33bec842d5c54572fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 40/79] fix: SimpleKeyValue leaked its copies of the text it
 parsed

---
 Configuration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 976f2c6..7d84444 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -973,7 +973,7 @@ void SimpleKeyValue::addItem(const char* pair_orig)
 	char *pair = strdup(pair_orig);
 	char *key = pair;
 	char *mark = strchr(pair,'=');
-	if (!mark) return;
+	if (!mark) { free(pair); return; }
 	*mark = '\0';
 	char *value = mark+1;
 	mMap[key] = value;
@@ -1017,8 +1017,9 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 void SimpleKeyValue::addItems(const char* pairs_orig)
 {
 	char *pairs = strdup(pairs_orig);
+	char *rest = pairs;	// strsep advances this one
 	char *thisPair;
-	while ((thisPair=strsep(&pairs," "))!=NULL) {
+	while ((thisPair=strsep(&rest," "))!=NULL) {
 		addItem(thisPair);
 	}
 	free(pairs);
-- 
2.43.0


From 757ef085b2cf3067544aa0ac44643907ec3ca77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 41/79] fix: Statistic::text copied overlapping strings with
 strcpy

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index ec5f1dc..e508a75 100644
--- a/Utils.h
+++ b/Utils.h
@@ -150,7 +150,7 @@ template<class Type> struct Statistic {
 			} else { // Shorten this up:
 				char buf[10], *ep;
 				sprintf(buf,"%.3g",round(mCnt));
-				if ((ep = strchr(buf,'e')) && ep[1] == '+') { strcpy(ep+1,ep+2); }
+				if ((ep = strchr(buf,'e')) && ep[1] == '+') { memmove(ep+1,ep+2,strlen(ep+2)+1); }
 				os << LOGVAR2("N",buf);
 			}
 			// os<<LOGVAR2("sd",getSD())  standard deviation not interesting
-- 
2.43.0


From 12029ac23250986ccdb15a3a6cc789091058ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 42/79] fix: sqlite3_prepare_statement without retries
 finalized an uninitialized statement

---
 sqlite3util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index f19cf4a..61d921c 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -49,6 +49,7 @@ const char* enableWAL = {
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries)
 {
         int src = SQLITE_BUSY;
+	*stmt = NULL;	// In case there are no retries at all.
 
 	for (unsigned i = 0; i < retries; i++) {
 		src = sqlite3_prepare_v2(DB,query,strlen(query),stmt,NULL);
-- 
2.43.0


From 7db69382fbce9202da400399776c57e64760eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 43/79] fix: sqlQuery truncated conditions on columns with long
 names, which could select a different row

---
 sqlite3util.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 61d921c..8e839db 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -97,17 +97,14 @@ string sqlite_quote(const string &text)
 	return result + "'";
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
 static string condition_c(const char *keyName, const char*keyValue)
 {
 	return string("WHERE ") + keyName + " == " + sqlite_quote(keyValue);
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return string("WHERE ") + keyName + format(" == %u",keyValue);
 }
 
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
@@ -143,8 +140,7 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
-- 
2.43.0


From 21f3317f2e253e0206aa94170d1aba6b0431210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 44/79] fix: sqlite_single_lookup_string was declared for
 unsigned keys but not defined

---
 sqlite3util.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 8e839db..4b28e14 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -313,6 +313,13 @@ string sqlite_single_lookup_string(sqlite3* db, const char* tableName,
 }
 
 
+string sqlite_single_lookup_string(sqlite3* db, const char* tableName,
+		const char* keyName, unsigned keyData, const char* resultName)
+{
+	return sqlQuery(db,tableName,resultName,keyName,keyData).getResultText();
+}
+
+
 // This function returns an allocated string that must be free'd by the caller.
 bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* keyName, const char* keyData,
-- 
2.43.0


From 44e748a90e43111291527c70c84e81bc513cdf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 45/79] fix: reports overflowed their sql buffers with long
 names and were misdirected by names with quotes or of columns

---
 Reporting.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..ef85924 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -72,9 +72,8 @@ bool ReportingTable::create(const char* paramName)
 	mLock.unlock();
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (%s,%ld)", sqlite_quote(paramName).c_str(), time(NULL));
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -96,9 +95,8 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=", newVal, time(NULL)) + sqlite_quote(paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -108,9 +106,8 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=", time(NULL)) + sqlite_quote(paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -187,13 +184,12 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			string cmd = format("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=", mp->second, time(NULL)) + sqlite_quote(mp->first);
+			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 			}
 			mp++;
-- 
2.43.0


From 7b35d2cb2b615c385192596fe07d46e8912ec98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 46/79] fix: indexed reports overflowed their name buffer for
 indices of 9 and 10 digits

---
 Reporting.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index ef85924..4512eae 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -132,16 +132,17 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 {
 	size_t sz = strlen(baseName);
 	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
+		char name[sz+12];
 		sprintf(name,"%s.%u",baseName,i);
 		if (!create(name)) return false;
+		if (i == maxIndex) break;	// i++ may overflow.
 	}
 	return true;
 }
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return incr(name);
 }
@@ -149,7 +150,7 @@ bool ReportingTable::incr(const char* baseName, unsigned index)
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return max(name,newVal);
 }
@@ -157,7 +158,7 @@ bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return clear(name);
 }
-- 
2.43.0


From f2d50c9edb30b4055e3d2f5b2b5ef06da3b8f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 47/79] fix: report increments were lost if the database was
 locked while they were committed

---
 Reporting.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 4512eae..2ffdebf 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -192,6 +192,10 @@ bool ReportingTable::commit()
 			string cmd = format("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=", mp->second, time(NULL)) + sqlite_quote(mp->first);
 			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// Try again next time.
+				mLock.lock();
+				mBatch[mp->first] += mp->second;
+				mLock.unlock();
 			}
 			mp++;
 		}
-- 
2.43.0


From aeb5a8b0f4bd82b8de0ed53e6e7b13363c5f140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 48/79] fix: increments made before a report was cleared were
 added after it was cleared

---
 Reporting.cpp | 15 +++++++++++++++
 Reporting.h   |  1 +
 2 files changed, 16 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 2ffdebf..3c0d3f3 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -106,11 +106,18 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
+	ScopedLock lock(mWriteLock);
 	string cmd = format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=", time(NULL)) + sqlite_quote(paramName);
 	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
+	// Increments which are not yet in the db are cleared as well.
+	mLock.lock();
+	if (mBatch.find(paramName) != mBatch.end()) {
+		mBatch[paramName] = 0;
+	}
+	mLock.unlock();
 	return true;
 }
 
@@ -118,12 +125,19 @@ bool ReportingTable::clear(const char* paramName)
 
 bool ReportingTable::clear()
 {
+	ScopedLock lock(mWriteLock);
 	char cmd[200];
 	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
 	if (!sqlite3_command(mDB,cmd)) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting table, error message: %s", sqlite3_errmsg(mDB));
 		return false;
 	}
+	// Increments which are not yet in the db are cleared as well.
+	mLock.lock();
+	for (ReportBatch::iterator mp = mBatch.begin(); mp != mBatch.end(); mp++) {
+		mp->second = 0;
+	}
+	mLock.unlock();
 	return true;
 }
 
@@ -169,6 +183,7 @@ bool ReportingTable::commit()
 	ReportBatch::iterator mp;
 	unsigned oustandingCount = 0;
 
+	ScopedLock lock(mWriteLock);
 	// copy out to free up access to mBatch as quickly as possible
 	mLock.lock();
 	mp = mBatch.begin();
diff --git a/Reporting.h b/Reporting.h
index c6bbc08..757d723 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -47,6 +47,7 @@ class ReportingTable {
 	int mFacility;				///< rsyslogd facility
 	ReportBatch mBatch;			///< batch of report updates, not yet stored in the db
 	mutable Mutex mLock;		///< control for multithreaded read/write access to the batch
+	mutable Mutex mWriteLock;	///< held while the batch is written to the db or parameters are cleared
 	Thread mBatchCommitter;		///< thread responsible for committing batches of report updates to the db
 
 
-- 
2.43.0


From 0908118593934e58fe42c966f42218639f64f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 49/79] fix: a report shutdown before the committer thread ran
 was forgotten, and its log facility was uninitialized

---
 Reporting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 3c0d3f3..0e99392 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -39,6 +39,7 @@ static const char* createReportingTable = {
 
 
 ReportingTable::ReportingTable(const char* filename)
+	:mFacility(LOG_USER),mReportRunning(true)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
@@ -224,7 +225,6 @@ bool ReportingTable::commit()
 extern ReportingTable gReports;
 void* reportingBatchCommitter(void*)
 {
-	gReports.mReportRunning = true;
 	while (gReports.mReportRunning) {
 		sleep(10);
 		gReports.commit();
-- 
2.43.0


From b1a66cd705b6124011c81fc220169a1e8444cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 50/79] fix: UDDSocket::destination did not set the address
 family, so nothing could be sent

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8464616..08da2aa 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -353,6 +353,7 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From b628b4a454a008697f26053a6eebc714e1cdbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 51/79] fix: UDDSocket overflowed its address buffers with
 paths which do not fit

---
 Sockets.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 08da2aa..3843004 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -324,6 +324,12 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 void UDDSocket::open(const char* localPath)
 {
+	struct sockaddr_un address;
+	if (strlen(localPath) >= sizeof(address.sun_path)) {
+		LOG(ERR) << "socket path too long:"<<localPath;
+		throw SocketError();
+	}
+
 	// create
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
@@ -333,7 +339,6 @@ void UDDSocket::open(const char* localPath)
 	}
 
 	// bind
-	struct sockaddr_un address;
 	size_t length = sizeof(address);
 	bzero(&address,length);
 	address.sun_family = AF_UNIX;
@@ -353,6 +358,10 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	if (strlen(remotePath) >= sizeof(unAddr->sun_path)) {
+		LOG(ERR) << "socket path too long:"<<remotePath;
+		throw SocketError();
+	}
 	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
-- 
2.43.0


From ecd973a305dc34ad07e9fd614f2c1db65560a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 52/79] fix: sockets closed descriptors twice, never, or ones
 which were not theirs

---
 Sockets.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 3843004..d1e7e09 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -117,7 +117,9 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 
 DatagramSocket::DatagramSocket()
 {
+	mSocketFD = -1;
 	memset(mDestination, 0, sizeof(mDestination));
+	memset(mSource, 0, sizeof(mSource));
 }
 
 
@@ -136,7 +138,8 @@ void DatagramSocket::blocking()
 
 void DatagramSocket::close()
 {
-	::close(mSocketFD);
+	if (mSocketFD >= 0) ::close(mSocketFD);
+	mSocketFD = -1;
 }
 
 
@@ -266,6 +269,8 @@ void UDPSocket::destination( unsigned short wDestPort, const char * wDestIP )
 
 void UDPSocket::open(unsigned short localPort)
 {
+	close();
+
 	// create
 	mSocketFD = socket(AF_INET,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
@@ -330,6 +335,8 @@ void UDDSocket::open(const char* localPath)
 		throw SocketError();
 	}
 
+	close();
+
 	// create
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
-- 
2.43.0


From a8731591b260a3a3e825a967fb0b8ee09ef575e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 53/79] fix: resolveAddress leaked if the port was missing

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index d1e7e09..82d30f8 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -59,6 +59,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	char *colon = strchr(copy,':');
 	if (!colon) {
 		LOG(WARNING) << "missing port number in:"<<hostAndPort;
+		free(copy);
 		return false;
 	}
 	*colon = '\0';
-- 
2.43.0


From f28cd160192ed3a59c0f39394a2bfe12e0af8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 54/79] fix: timed socket reads corrupted memory for
 descriptors over 1023

---
 Sockets.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 82d30f8..da1190a 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -30,7 +30,8 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <cstdio>
-#include <sys/select.h>
+#include <limits.h>
+#include <poll.h>
 
 #include "Defines.h"
 #include "Threads.h"
@@ -223,21 +224,19 @@ int DatagramSocket::read(char* buffer)
 
 int DatagramSocket::read(char* buffer, unsigned timeout)
 {
-	fd_set fds;
-	FD_ZERO(&fds);
-	FD_SET(mSocketFD,&fds);
-	struct timeval tv;
-	tv.tv_sec = timeout/1000;
-	tv.tv_usec = (timeout%1000)*1000;
-	int sel = select(mSocketFD+1,&fds,NULL,NULL,&tv);
+	// Not select, which corrupts memory for descriptors over 1023.
+	struct pollfd fds;
+	fds.fd = mSocketFD;
+	fds.events = POLLIN;
+	fds.revents = 0;
+	int sel = poll(&fds,1,timeout > INT_MAX ? INT_MAX : (int)timeout);
 	if (sel<0) {
-		perror("DatagramSocket::read() select() failed");
+		perror("DatagramSocket::read() poll() failed");
 		devassert(0);
 		throw SocketError();
 	}
 	if (sel==0) return -1;
-	if (FD_ISSET(mSocketFD,&fds)) return read(buffer);
-	return -1;
+	return read(buffer);
 }
 
 
-- 
2.43.0


From 20ba78eccbcc368e4548195c5b5a75f12f65ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 55/79] fix: writeBack to a sender without an address replied
 to an earlier sender

---
 Sockets.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index da1190a..1bb2953 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -210,9 +210,13 @@ int DatagramSocket::send(const struct sockaddr* dest, const char * message)
 
 int DatagramSocket::read(char* buffer)
 {
-	socklen_t temp_len = sizeof(mSource);
+	// The sender may have no address, so dont keep parts of the previous one.
+	char source[sizeof(mSource)];
+	memset(source, 0, sizeof(source));
+	socklen_t temp_len = sizeof(source);
 	int length = recvfrom(mSocketFD, (void*)buffer, MAX_UDP_LENGTH, 0,
-	    (struct sockaddr*)&mSource,&temp_len);
+	    (struct sockaddr*)source,&temp_len);
+	if (length>=0) memcpy(mSource, source, sizeof(mSource));
 	if ((length==-1) && (errno!=EAGAIN)) {
 		perror("DatagramSocket::read() failed");
 		devassert(0);
-- 
2.43.0


From 054cd4100d15106fbe6575c2287dc02a391a85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 56/79] fix: UnixSignal did not initialize whether to save
 files, so any core could run its shell commands

---
 UnixSignal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index de55b3c..0d1ef4c 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -115,6 +115,7 @@ UnixSignal::UnixSignal(void)
 	//signal(i, _sigHandler);
     }
     mAddPid = false;
+    mSaveFiles = false;
     mCoreFile = "core";
 }
 
-- 
2.43.0


From 98fde99c38128240f1065cc3db31d4debc32f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 57/79] fix: two instances started at the same time could both
 register

---
 SelfDetect.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index dd99d25..b015c7d 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -29,6 +29,7 @@
 #include <cerrno>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <string.h>
 
@@ -61,16 +62,16 @@ void SelfDetect::RegisterProgram(const char *argv0)
     snprintf(buf, sizeof(buf)-1, "/var/run/%s.pid", p);
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
-    // first, verify we aren't already running.
-    struct stat stbuf;
-    if (stat(buf, &stbuf) >= 0)
+    // verify we aren't already running, creating the file at the same time so that only one instance can succeed.
+    int fd = open(buf, O_WRONLY | O_CREAT | O_EXCL, 0666);
+    if (fd < 0 && errno == EEXIST)
     {
 	LOG(CRIT) << "*** An instance of " << p << " is already running. ";
 	LOG(CRIT) << "*** If this is not the case, deleting this file will allow " << p << " to start: " << buf << " exiting...";
 	Exit::exit(Exit::DETECTFILE);
     }
     
-    FILE *fp = fopen(buf, "w");
+    FILE *fp = fd < 0 ? NULL : fdopen(fd, "w");
     if (fp == NULL)
     {
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
-- 
2.43.0


From 17b351b8340c54addaf9e347f254e4508da44f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 58/79] fix: SelfDetect left its pid file behind if a signal
 came before the registration was complete

---
 SelfDetect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index b015c7d..365b6d7 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -79,6 +79,8 @@ void SelfDetect::RegisterProgram(const char *argv0)
     }
     fprintf(fp, "%d\n", getpid());
     fclose(fp);
+    mProg = strdup(argv0);
+    mFile = strdup(buf);
     atexit(e);
 	gSigVec.CoreName(gConfig.getStr("Core.File"), gConfig.getBool("Core.Pid"));
 	gSigVec.TarName(gConfig.getStr("Core.TarFile"), gConfig.getBool("Core.SaveFiles"));
@@ -105,8 +107,6 @@ void SelfDetect::RegisterProgram(const char *argv0)
 				break;
 		}
     }
-    mProg = strdup(argv0);
-    mFile = strdup(buf);
 }
 
 void SelfDetect::Exit(int sig)
-- 
2.43.0


From 99253141e331bf045cba27882c8735c00738ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 59/79] fix: UDPSockets with OS-assigned ports could be given
 the same port

---
 Sockets.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 1bb2953..654a665 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -284,8 +284,9 @@ void UDPSocket::open(unsigned short localPort)
 	}
 
 	// pat added: This lets the socket be reused immediately, which is needed if OpenBTS crashes.
+	// But not for a port chosen by the OS, which might then choose one which is in use.
 	int on = 1;
-	setsockopt(mSocketFD, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
+	if (localPort) setsockopt(mSocketFD, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
 
 
 	// bind
-- 
2.43.0


From b3f0e4e87408d0cae41fab6368647d0a01eef089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:37 +0000
Subject: [PATCH 60/79] fix: SelfDetect removed the pid file on signals which
 do not end the program

---
 SelfDetect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 365b6d7..ba80fcd 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -99,8 +99,14 @@ void SelfDetect::RegisterProgram(const char *argv0)
 			//		openbts: NOTICE 3031243584 05:03:50.4 OpenBTS.cpp:165:startTransceiver: starting transceiver ./transceiver w/ 1 ARFCNs and Args:
 			//		openbts: NOTICE 3073816320 05:03:50.4 SelfDetect.cpp:98:Exit: *** Terminating ./OpenBTS
 			//		openbts: NOTICE 3073816320 05:03:50.4 SelfDetect.cpp:105:Exit: *** Removing pid file /var/run/OpenBTS.pid
+			// The others do not terminate the program either.
 			case SIGCONT:
 			case SIGCHLD:
+			case SIGURG:
+			case SIGWINCH:
+			case SIGTSTP:
+			case SIGTTIN:
+			case SIGTTOU:
 				break;
 			default:
 				gSigVec.Register(sigfcn, i);
-- 
2.43.0


From 5f4ab6884b51c2747c9f08c5df1c191819b41ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:25 +0000
Subject: [PATCH 61/79] fix: assigning a vector a segment of itself released
 the elements it then refers to

---
 Vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Vector.h b/Vector.h
index 5b88977..85dd0f3 100644
--- a/Vector.h
+++ b/Vector.h
@@ -151,6 +151,12 @@ template <class T> class VectorBase
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
 		if (this == &other) { return; }
+		if (this->mData && !other.mData && other.mStart >= this->mStart && other.mEnd <= this->mEnd) {
+			// Other refers to a part of our own memory: keep owning it.
+			this->mStart=other.mStart;
+			this->mEnd=other.mEnd;
+			return;
+		}
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
-- 
2.43.0


From 99f99ece5e79193605e89b7de4b945fe9875fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:26 +0000
Subject: [PATCH 62/79] fix: msleep returned early when a signal was handled or
 the time exceeded 32 bits of microseconds

---
 Timeval.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Timeval.h b/Timeval.h
index 5a5c609..689cbb7 100644
--- a/Timeval.h
+++ b/Timeval.h
@@ -31,11 +31,20 @@
 #include "sys/time.h"
 #include <iostream>
 #include <unistd.h>
+#include <time.h>
+#include <errno.h>
 
 
 
-/** A wrapper on usleep to sleep for milliseconds. */
-inline void msleep(long v) { usleep(v*1000); }
+/** Sleep for at least the given number of milliseconds, even if signals are handled meanwhile. */
+inline void msleep(long v)
+{
+	struct timespec left;
+	if (v <= 0) return;
+	left.tv_sec = v / 1000;
+	left.tv_nsec = (v % 1000) * 1000000;
+	while (nanosleep(&left,&left) && errno == EINTR) {}
+}
 
 
 /** A C++ wrapper for struct timeval. */
-- 
2.43.0


From 49c22cf052674d502f0ab7c96b031aa19343a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:36 +0000
Subject: [PATCH 63/79] fix: sleepf returned early when a signal was handled or
 the time exceeded 32 bits of microseconds

---
 Utils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index a903b12..61cdae3 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -14,7 +14,9 @@
     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
 */
 
-#include <unistd.h>		// For usleep
+#include <unistd.h>
+#include <errno.h>
+#include <time.h>		// For nanosleep
 #include <sys/time.h>	// For gettimeofday
 #include <stdio.h>		// For vsnprintf
 #include <ostream>		// For ostream
@@ -309,7 +311,10 @@ const string timestr() { return timestr(12); }
 void sleepf(double howlong)
 {
 	if (howlong <= 0.00001) return;		// Less than 10 usecs, forget it.
-	usleep((useconds_t) (1000000.0 * howlong));
+	struct timespec left;
+	left.tv_sec = (time_t) howlong;
+	left.tv_nsec = (long) ((howlong - left.tv_sec) * 1e9);
+	while (nanosleep(&left,&left) && errno == EINTR) {}		// Go on if a signal was handled.
 }
 
 //bool sleepuntil(double untilwhen)
-- 
2.43.0


From 8e7961849a6b23f5477fd7094895335f7b14d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:14 +0000
Subject: [PATCH 64/79] fix: a write to one of several connected queues could
 wake only a thread waiting for another one

---
 Interthread.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 7c3cdda..09b18c1 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -118,17 +118,26 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	// That allows us to connect two InterthreadQueue together such that a single thread can wait on either.
 	mutable Mutex mLock, *mLockPointer;
 	mutable Signal mWriteSignal, *mWriteSignalPointer;
+	bool mConnected;	// Do other queues use the same Signal?
 
 	protected:
 
+	// Threads waiting for other queues may be waiting for the same Signal; then they must all be woken,
+	// because waking just one of them might miss the one that can use the item.
+	void wakeReader() {
+		if (mConnected) mWriteSignalPointer->broadcast();
+		else mWriteSignalPointer->signal();
+	}
+
 	public:
-	InterthreadQueue() : mLockPointer(&mLock), mWriteSignalPointer(&mWriteSignal) {}
+	InterthreadQueue() : mLockPointer(&mLock), mWriteSignalPointer(&mWriteSignal), mConnected(false) {}
 
 	// This connects the two InterthreadQueue permanently so they use the same lock and Signal.
 	// Subsequently you can use iqWaitForEither.
 	void iqConnect(InterthreadQueue &other) {
 		mLockPointer = other.mLockPointer;
 		mWriteSignalPointer = other.mWriteSignalPointer;
+		mConnected = other.mConnected = true;
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
@@ -309,7 +318,7 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		{ ScopedLock lock(*mLockPointer);
 		  mQ.put(val);
 		}
-		mWriteSignalPointer->signal();
+		wakeReader();
 	}
 
 	/** Non-block write to the front of the queue. aka push_front */
@@ -319,7 +328,7 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		{ ScopedLock lock(*mLockPointer);
 		  mQ.push_front(val);
 		}
-		mWriteSignalPointer->signal();
+		wakeReader();
 	}
 };
 
-- 
2.43.0


From b8b4e72f6383f4e6c5033fbb43fa64363ca7249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:15 +0000
Subject: [PATCH 65/79] fix: copying between overlapping segments of a vector
 used memcpy

---
 Vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vector.h b/Vector.h
index 85dd0f3..592c25b 100644
--- a/Vector.h
+++ b/Vector.h
@@ -262,7 +262,7 @@ template <class T> class VectorBase
 		T* base = other.mStart + start;
 		assert(base+span<=other.mEnd);
 		assert(mStart+span<=mEnd);
-		memcpy(base,mStart,span*sizeof(T));
+		memmove(base,mStart,span*sizeof(T));	// They may be overlapping parts of one vector.
 	}
 
 	/** Copy all of this Vector to a segment of another Vector. */
@@ -282,7 +282,7 @@ template <class T> class VectorBase
 		const T* base = mStart + start;
 		assert(base+span<=mEnd);
 		assert(other.mStart+span<=other.mEnd);
-		memcpy(other.mStart,base,span*sizeof(T));
+		memmove(other.mStart,base,span*sizeof(T));
 	}
 
 	void fill(const T& val)
-- 
2.43.0


From 6cd6bc4e9cc0641f25a6e2265e1b6a4c8e1e9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 66/79] fix: an object whose destructor uses the RefCntPointer
 that is releasing it was destroyed twice

---
 Utils.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Utils.h b/Utils.h
index e508a75..f36e261 100644
--- a/Utils.h
+++ b/Utils.h
@@ -235,8 +235,11 @@ template<class Type>	// Type must be a descendent of RefCntBase.
 class RefCntPointer {
 	Type *rcPointer;
 	void rcInc() { if (rcPointer) rcPointer->incRefCnt(); }
+	// Forget the object before releasing it: its destructor may use this pointer.
 	void rcDec() {
-		if (rcPointer) if (rcPointer->decRefCnt() <= 0) { rcPointer = NULL; };
+		Type *old = rcPointer;
+		rcPointer = NULL;
+		if (old) { old->decRefCnt(); }
 	}
 	public:
 	RefCntPointer() : rcPointer(NULL) { }
@@ -253,8 +256,8 @@ class RefCntPointer {
 	Type* self() const { return rcPointer; }
 	// The operator=(Type*) is called if the argument is NULL, so we dont need int.
 	//Type* operator=(int value) { assert(value == 0); rcDec(); rcPointer = 0; return rcPointer; }
-	// We increment before decrement if possible so that a = a; does not crash.
-	RefCntPointer<Type>& operator=(RefCntPointer other) { other.rcInc(); rcDec(); rcPointer = other.rcPointer; return *this; }
+	// Other is a copy: exchange the objects and let its destructor release ours, after we refer to the new one already.
+	RefCntPointer<Type>& operator=(RefCntPointer other) { Type *old = rcPointer; rcPointer = other.rcPointer; other.rcPointer = old; return *this; }
 	// The old is the previous value of this pointer.  We do not decrement the refcnt in the other that we are taking charge of.
 	RefCntPointer<Type>& operator=(Type* other) { Type *old = rcPointer;  rcPointer = other; rcInc(); if (old) {old->decRefCnt();} return *this; }
 	bool operator==(const RefCntPointer &other) const { return rcPointer == other.rcPointer; }
@@ -267,11 +270,11 @@ class RefCntPointer {
 	//operator Type*() const { return rcPointer; }
 	// free is a synonym for *this = NULL; but it is a better comment in the code what is happening.  RefCntBase is only freed if this was the last pointer to it.
 	void free() {
+		void *old = (void*)rcPointer;
 		int refcnt = rcPointer ? rcPointer->getRefCnt() : 0;
 		rcDec();
-		if (refcnt > 1) { LOG(DEBUG)<<"RefCntPointer "<<(void*)rcPointer<<" refcnt before="<<refcnt<< " did not free structure."; }
-		else { LOG(DEBUG)<<"RefCntPointer "<<(void*)rcPointer<<"  refcnt before="<<refcnt; }
-		rcPointer = NULL;
+		if (refcnt > 1) { LOG(DEBUG)<<"RefCntPointer "<<old<<" refcnt before="<<refcnt<< " did not free structure."; }
+		else { LOG(DEBUG)<<"RefCntPointer "<<old<<"  refcnt before="<<refcnt; }
 	}
 	bool isNULL() const { return self() == NULL; }
 };
-- 
2.43.0


From 468ecc6f04900d1424da843f5b9df3bece501cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 67/79] fix: myscanf appended stray bytes to fields scanned
 with %c

---
 Utils.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 61cdae3..f158677 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -196,10 +196,11 @@ string format1(const char *fmt, ...)
 	return result;
 }
 
+// The buffers are cleared because some conversions, eg %c, do not terminate what they store.
 int myscanf(const char *str, const char *fmt, string *s1)
 {
 	int maxlen = strlen(str)+1;
-	char *a1 = (char*)alloca(maxlen);
+	char *a1 = (char*)alloca(maxlen); memset(a1,0,maxlen);
 	int n = sscanf(str,fmt,a1);
 	if (n == 1) { s1->assign(a1); }
 	return n;
@@ -207,8 +208,8 @@ int myscanf(const char *str, const char *fmt, string *s1)
 int myscanf(const char *str, const char *fmt, string *s1, string *s2)
 {
 	int maxlen = strlen(str)+1;
-	char *a1 = (char*)alloca(maxlen);
-	char *a2 = (char*)alloca(maxlen);
+	char *a1 = (char*)alloca(maxlen); memset(a1,0,maxlen);
+	char *a2 = (char*)alloca(maxlen); memset(a2,0,maxlen);
 	int n = sscanf(str,fmt,a1,a2);
 	switch (n) {
 	case 2: s2->assign(a2);
@@ -219,9 +220,9 @@ int myscanf(const char *str, const char *fmt, string *s1, string *s2)
 int myscanf(const char *str, const char *fmt, string *s1, string *s2, string *s3)
 {
 	int maxlen = strlen(str)+1;
-	char *a1 = (char*)alloca(maxlen);
-	char *a2 = (char*)alloca(maxlen);
-	char *a3 = (char*)alloca(maxlen);
+	char *a1 = (char*)alloca(maxlen); memset(a1,0,maxlen);
+	char *a2 = (char*)alloca(maxlen); memset(a2,0,maxlen);
+	char *a3 = (char*)alloca(maxlen); memset(a3,0,maxlen);
 	int n = sscanf(str,fmt,a1,a2,a3);
 	switch (n) {
 	case 3: s3->assign(a3);
@@ -233,10 +234,10 @@ int myscanf(const char *str, const char *fmt, string *s1, string *s2, string *s3
 int myscanf(const char *str, const char *fmt, string *s1, string *s2, string *s3, string *s4)
 {
 	int maxlen = strlen(str)+1;
-	char *a1 = (char*)alloca(maxlen);
-	char *a2 = (char*)alloca(maxlen);
-	char *a3 = (char*)alloca(maxlen);
-	char *a4 = (char*)alloca(maxlen);
+	char *a1 = (char*)alloca(maxlen); memset(a1,0,maxlen);
+	char *a2 = (char*)alloca(maxlen); memset(a2,0,maxlen);
+	char *a3 = (char*)alloca(maxlen); memset(a3,0,maxlen);
+	char *a4 = (char*)alloca(maxlen); memset(a4,0,maxlen);
 	int n = sscanf(str,fmt,a1,a2,a3,a4);
 	switch (n) {
 	case 4: s4->assign(a4);
-- 
2.43.0


From 6067c44aa44048472430122e3e0dd60d03e9e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 68/79] fix: copies of objects with a memory leak detector were
 counted when destroyed but not when created

---
 MemoryLeak.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index c7ae4f9..559afaa 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -107,6 +107,8 @@ struct MemLabel {
 #define DEFINE_MEMORY_LEAK_DETECTOR_CLASS(subClass,checkerClass) \
 	struct checkerClass : public virtual Utils::MemLabel { \
 	    checkerClass() { RN_MEMCHKNEW(subClass); } \
+	    checkerClass(const checkerClass &other) : Utils::MemLabel(other) { RN_MEMCHKNEW(subClass); } \
+	    checkerClass &operator=(const checkerClass &) { return *this; } \
 		virtual ~checkerClass() { \
 			RN_MEMCHKDEL(subClass); \
 		} \
-- 
2.43.0


From 1fade1f51da5ba33997f4774a23cd430bec0d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 69/79] fix: copying or assigning a labelled object took over
 its label, which was then uncounted twice

---
 MemoryLeak.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index 559afaa..e922faa 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -81,6 +81,10 @@ extern int gMemLeakDebug;
 
 struct MemLabel {
 	std::string mccKey;
+	MemLabel() {}
+	// A copy has not been labelled by RN_MEMLOG yet, and an assignment does not change what the object was counted as.
+	MemLabel(const MemLabel &) {}
+	MemLabel &operator=(const MemLabel &) { return *this; }
 	virtual ~MemLabel() {
 		Int_z &tmp = Utils::gMemStats.mMemMap[mccKey]; tmp = tmp - 1;
 	}
-- 
2.43.0


From 90f93cfc6bc5209c15912365bad35b64b93c2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 70/79] fix: labelled memory counters were updated without a
 lock, and unlabelled objects were uncounted

---
 MemoryLeak.h | 5 +++--
 Utils.cpp    | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index e922faa..5815123 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -65,6 +65,7 @@ struct MemStats {
 	MemStats();
 	void memChkNew(MemoryNames memIndex, const char *id);
 	void memChkDel(MemoryNames memIndex, const char *id);
+	void memChkLabel(const std::string &key, int change);
 	void text(std::ostream &os);
 	// We would prefer to use an unordered_map, but that requires special compile switches.
 	// What a super great language.
@@ -86,7 +87,7 @@ struct MemLabel {
 	MemLabel(const MemLabel &) {}
 	MemLabel &operator=(const MemLabel &) { return *this; }
 	virtual ~MemLabel() {
-		Int_z &tmp = Utils::gMemStats.mMemMap[mccKey]; tmp = tmp - 1;
+		if (!mccKey.empty()) Utils::gMemStats.memChkLabel(mccKey,-1);	// It may never have been labelled.
 	}
 };
 
@@ -104,7 +105,7 @@ struct MemLabel {
 #define RN_MEMLOG(type,ptr) { \
 	static std::string key = format("%s_%s:%d",#type,__FILE__,__LINE__); \
 	(ptr)->/* MemCheck##type:: */ mccKey = key; \
-	Utils::gMemStats.mMemMap[key]++; \
+	Utils::gMemStats.memChkLabel(key,1); \
 	}
 
 // TODO: The above assumes that checkclass is MemCheck ## subClass
diff --git a/Utils.cpp b/Utils.cpp
index f158677..2cec5f5 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -111,6 +111,13 @@ void MemStats::memChkDel(MemoryNames memIndex, const char *id)
 	}
 }
 
+// Count an object created or destroyed under a label by RN_MEMLOG.
+void MemStats::memChkLabel(const string &key, int change)
+{
+	ScopedLock lock(memChkLock);
+	mMemMap[key] += change;
+}
+
 ostream& operator<<(std::ostream& os, std::ostringstream& ss)
 {
 	return os << ss.str();
-- 
2.43.0


From fb73e290cabff23743884abd945b841f960f13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 71/79] fix: the memory counters were printed without their
 lock

---
 Utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utils.cpp b/Utils.cpp
index 2cec5f5..9cb94f6 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -82,6 +82,7 @@ MemStats::MemStats()
 
 void MemStats::text(ostream &os)
 {
+	ScopedLock lock(memChkLock);
 	os << "Structs current total:\n";
 	for (int i = 0; i < mMax; i++) {
 		os << "\t" << (mMemName[i] ? mMemName[i] : "unknown") << " " << mMemNow[i] << " " << mMemTotal[i] << "\n";
-- 
2.43.0


From 20006b0f2ffdc93cfc9a5af9ea10ef0eb9f9763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 72/79] fix: copying a vector copied the memory of its
 elements, which released twice what they hold

---
 Vector.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/Vector.h b/Vector.h
index 592c25b..ad0b094 100644
--- a/Vector.h
+++ b/Vector.h
@@ -34,6 +34,7 @@
 #include <iostream>
 #include <assert.h>
 #include <stdio.h>
+#include <algorithm>
 // We cant use Logger.h in this file...
 extern int gVectorDebug;
 //#define ENABLE_VECTORDEBUG
@@ -125,8 +126,6 @@ template <class T> class RCData : public RefCntBase {
 //		All these should be reference-counted, similar to ByteVector.
 template <class T> class VectorBase
 {
-	// TODO -- Replace memcpy calls with for-loops. (pat) in case class T is not POD [Plain Old Data]
-
 	protected:
 #if BITVECTOR_REFCNTS
 	typedef RefCntPointer<RCData<T> > VectorDataType;
@@ -145,6 +144,13 @@ template <class T> class VectorBase
 		mEnd = mStart + elements;
 	}
 
+	// Copy elements, which may be of any class, between possibly overlapping parts of one vector.
+	static void vMove(T *dest, const T *source, size_t span)
+	{
+		if (dest <= source) { std::copy(source,source+span,dest); }
+		else { std::copy_backward(source,source+span,dest+span); }
+	}
+
 	/** Assign from another Vector, shifting ownership. */
 	// (pat) This should be eliminated, but it is used by Vector and descendents.
 	void shiftMem(VectorBase<T>&other)
@@ -208,7 +214,7 @@ template <class T> class VectorBase
 		const T *source = other.mStart;
 		T *oldData = mData;
 		vInit(newSize);
-		memcpy(mData,source,newSize*sizeof(T));
+		std::copy(source,source+newSize,mData);
 		delete[] oldData;
 	}
 
@@ -218,8 +224,8 @@ template <class T> class VectorBase
 		const T *source1 = other1.mStart, *source2 = other2.mStart;
 		T *oldData = mData;
 		vInit(size1+size2);
-		memcpy(this->mStart, source1, size1*sizeof(T));
-		memcpy(this->mStart+size1, source2, size2*sizeof(T));
+		std::copy(source1, source1+size1, this->mStart);
+		std::copy(source2, source2+size2, this->mStart+size1);
 		delete[] oldData;
 	}
 
@@ -262,7 +268,7 @@ template <class T> class VectorBase
 		T* base = other.mStart + start;
 		assert(base+span<=other.mEnd);
 		assert(mStart+span<=mEnd);
-		memmove(base,mStart,span*sizeof(T));	// They may be overlapping parts of one vector.
+		vMove(base,mStart,span);
 	}
 
 	/** Copy all of this Vector to a segment of another Vector. */
@@ -282,7 +288,7 @@ template <class T> class VectorBase
 		const T* base = mStart + start;
 		assert(base+span<=mEnd);
 		assert(other.mStart+span<=other.mEnd);
-		memmove(other.mStart,base,span*sizeof(T));
+		vMove(other.mStart,base,span);
 	}
 
 	void fill(const T& val)
-- 
2.43.0


From 29e20ecb9881086a290d60c09c687b08a0f8b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:18 +0000
Subject: [PATCH 73/79] fix: conversion of a float to F16 missed the nearest
 value, even one which is exactly representable

---
 F16.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/F16.h b/F16.h
index 52afc6a..c611664 100644
--- a/F16.h
+++ b/F16.h
@@ -41,18 +41,18 @@ inline int32_t _f16_sat(int64_t v)
 }
 
 /** Limit a raw floating point value to what an F16 can hold, and truncate it. */
-inline int32_t _f16_sat(float f)
+inline int32_t _f16_sat(double f)
 {
-	if (f>=2147483648.0F) return INT32_MAX;
-	if (f<=-2147483648.0F) return INT32_MIN;
+	if (f>=2147483648.0) return INT32_MAX;
+	if (f<=-2147483648.0) return INT32_MIN;
 	return (int32_t)f;
 }
 
-/** Round a float to the appropriate F16 value. */
-inline int32_t _f16_round(float f)
+/** Round a float to the appropriate F16 value.  The sum needs more bits than a float has. */
+inline int32_t _f16_round(double f)
 {
-	if (f>0.0F) return _f16_sat(f+0.5F);
-	if (f<0.0F) return _f16_sat(f-0.5F);
+	if (f>0.0) return _f16_sat(f+0.5);
+	if (f<0.0) return _f16_sat(f-0.5);
 	return 0;
 }
 
-- 
2.43.0


From ad2bd8d48be71502ceb0c67acae59497d0b7720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:18 +0000
Subject: [PATCH 74/79] fix: conversion of a double to F16 was only as exact as
 a float

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index c611664..3a17c47 100644
--- a/F16.h
+++ b/F16.h
@@ -73,7 +73,7 @@ class F16 {
 
 	F16(int i) { mV = _f16_sat((int64_t)i*65536); }
 	F16(float f) { mV = _f16_round(f*65536.0F); }
-	F16(double f) { mV = _f16_round((float)f*65536.0F); }
+	F16(double f) { mV = _f16_round(f*65536.0); }
 
 	int32_t& raw() { return mV; }
 	const int32_t& raw() const { return mV; }
-- 
2.43.0


From b0ecf8220e05cf025521b0c6b86ddf95671ebbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:11 +0000
Subject: [PATCH 75/79] fix: formatting a string and a number which is not an
 int passed the number on as an int

---
 Utils.h | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/Utils.h b/Utils.h
index f36e261..e8b4ff9 100644
--- a/Utils.h
+++ b/Utils.h
@@ -40,30 +40,36 @@ string format(const char *fmt, ...) __attribute__((format (printf,1,2)));
 
 // format1 used to prevent C++ confusion over what function to call here.
 string format1(const char *fmt, ...) __attribute__((format (printf,1,2)));
-// We have to enumerate the cross product of argument types here.  This is fixed in C++11.
-inline string format(const char *fmt, string s1) {
-	return format1(fmt,s1.c_str());
-}
-inline string format(const char *fmt, string s1, string s2) {
-	return format1(fmt,s1.c_str(),s2.c_str());
-}
-inline string format(const char *fmt, string s1, string s2, string s3) {
-	return format1(fmt,s1.c_str(),s2.c_str(),s3.c_str());
-}
-inline string format(const char *fmt, string s1, string s2, string s3, string s4) {
-	return format1(fmt,s1.c_str(),s2.c_str(),s3.c_str(),s4.c_str());
-}
-inline string format(const char *fmt, string s1, int i1) {
-	return format1(fmt,s1.c_str(),i1);
+// With a string among the arguments: a string is passed on as its text, and any other argument unchanged.
+// We have to enumerate the number of arguments here.  This is fixed in C++11.
+template<class T> struct FormatIsString {
+	static char test(const string *);
+	static long test(...);
+	static const bool value = sizeof(test((T*)0)) == sizeof(char);
+};
+template<class T, bool isString = FormatIsString<T>::value> struct FormatArg { static T get(T arg) { return arg; } };
+template<class T> struct FormatArg<T,true> { static const char *get(const string &arg) { return arg.c_str(); } };
+template<bool hasString> struct FormatResult { };
+template<> struct FormatResult<true> { typedef string type; };
+
+template<class T1>
+inline typename FormatResult<FormatIsString<T1>::value>::type format(const char *fmt, T1 a1) {
+	return format1(fmt,FormatArg<T1>::get(a1));
 }
-inline string format(const char *fmt, int i1, string s1) {
-	return format1(fmt,i1,s1.c_str());
+template<class T1, class T2>
+inline typename FormatResult<FormatIsString<T1>::value || FormatIsString<T2>::value>::type
+format(const char *fmt, T1 a1, T2 a2) {
+	return format1(fmt,FormatArg<T1>::get(a1),FormatArg<T2>::get(a2));
 }
-inline string format(const char *fmt, string s1, string s2, int i1) {
-	return format1(fmt,s1.c_str(),s2.c_str(),i1);
+template<class T1, class T2, class T3>
+inline typename FormatResult<FormatIsString<T1>::value || FormatIsString<T2>::value || FormatIsString<T3>::value>::type
+format(const char *fmt, T1 a1, T2 a2, T3 a3) {
+	return format1(fmt,FormatArg<T1>::get(a1),FormatArg<T2>::get(a2),FormatArg<T3>::get(a3));
 }
-inline string format(const char *fmt, string s1, string s2, int i1, int i2) {
-	return format1(fmt,s1.c_str(),s2.c_str(),i1,i2);
+template<class T1, class T2, class T3, class T4>
+inline typename FormatResult<FormatIsString<T1>::value || FormatIsString<T2>::value || FormatIsString<T3>::value || FormatIsString<T4>::value>::type
+format(const char *fmt, T1 a1, T2 a2, T3 a3, T4 a4) {
+	return format1(fmt,FormatArg<T1>::get(a1),FormatArg<T2>::get(a2),FormatArg<T3>::get(a3),FormatArg<T4>::get(a4));
 }
 
 int myscanf(const char *str, const char *fmt, string *s1);
-- 
2.43.0


From 15642fefedd36c2465225601301de48193e250db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:12 +0000
Subject: [PATCH 76/79] fix: the 32768th pointer to a reference counted object
 overflowed its count and aborted

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index e8b4ff9..2e5261c 100644
--- a/Utils.h
+++ b/Utils.h
@@ -206,7 +206,7 @@ extern string uintToString(uint32_t x);
 class RefCntBase {
 	template <class Type> friend class RefCntPointer;
 	mutable Mutex mRefMutex;
-	mutable short mRefCnt;		// signed, not unsigned!
+	mutable int mRefCnt;		// signed, not unsigned!
 	int setRefCnt(int val) { return mRefCnt = val; }
 	// The semantics of reference counting mean you cannot copy an object that has reference counts;
 	// they are only manipulated by pointers.  This constructor is private, which makes C++ whine if you do this.
-- 
2.43.0


From 2f8f1982120ad6455ef3fbd794bd8f087a18143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:10 +0000
Subject: [PATCH 77/79] fix: log records carried no process number unless
 logging was initialised by gLogInit

---
 Logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Logger.cpp b/Logger.cpp
index 5a0dfb4..c43d505 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -51,7 +51,7 @@ void            addAlarm(const string&);
 //@}
 
 // (pat 3-2014) Note that the logger is used by multiple programs.
-pid_t gPid = 0;
+pid_t gPid = getpid();
 
 
 // (pat) If Log messages are printed before the classes in this module are inited
@@ -269,6 +269,7 @@ void gLogInitWithFile(const char* name, const char* level, int facility, char *
 	if (level) {
 		gConfig.set("Log.Level",level);
 	}
+	gPid = getpid();
 
 	if (gLogToFile==0 && LogFilePath != 0 && *LogFilePath != 0 && strlen(LogFilePath) > 0) {
 		gLogToFile = fopen(LogFilePath,"w"); // New log file each time we start.
-- 
2.43.0


From bd3c631e0ba0461f1e45db610dcb7485fad512d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:47 +0000
Subject: [PATCH 78/79] fix: a signal handled while waiting for a datagram
 ended the wait with an error

---
 Sockets.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 654a665..d5dc32c 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -36,6 +36,7 @@
 #include "Defines.h"
 #include "Threads.h"
 #include "Sockets.h"
+#include "Timeval.h"
 #include "Logger.h"
 #include <stdio.h>
 #include <unistd.h>
@@ -216,6 +217,11 @@ int DatagramSocket::read(char* buffer)
 	socklen_t temp_len = sizeof(source);
 	int length = recvfrom(mSocketFD, (void*)buffer, MAX_UDP_LENGTH, 0,
 	    (struct sockaddr*)source,&temp_len);
+	while (length==-1 && errno==EINTR) {	// A signal handler ran, which is no error.
+		temp_len = sizeof(source);
+		length = recvfrom(mSocketFD, (void*)buffer, MAX_UDP_LENGTH, 0,
+		    (struct sockaddr*)source,&temp_len);
+	}
 	if (length>=0) memcpy(mSource, source, sizeof(mSource));
 	if ((length==-1) && (errno!=EAGAIN)) {
 		perror("DatagramSocket::read() failed");
@@ -233,7 +239,12 @@ int DatagramSocket::read(char* buffer, unsigned timeout)
 	fds.fd = mSocketFD;
 	fds.events = POLLIN;
 	fds.revents = 0;
+	Timeval limit(timeout > INT_MAX ? INT_MAX : timeout);
 	int sel = poll(&fds,1,timeout > INT_MAX ? INT_MAX : (int)timeout);
+	while (sel<0 && errno==EINTR) {	// A signal handler ran, so wait for the rest of the time.
+		long left = limit.remaining();
+		sel = poll(&fds,1,left < 0 ? 0 : left >= INT_MAX ? INT_MAX : (int)left+1);
+	}
 	if (sel<0) {
 		perror("DatagramSocket::read() poll() failed");
 		devassert(0);
-- 
2.43.0


From 3342ea8993f2983349af0355ef6d3791aa3870a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:47 +0000
Subject: [PATCH 79/79] fix: the pid file name of a program with a long name
 was cut short

---
 SelfDetect.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index ba80fcd..a024137 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -58,8 +58,9 @@ void SelfDetect::RegisterProgram(const char *argv0)
     const char *p = strrchr((char*)argv0,'/');
 	if (p == NULL) { p = argv0; }
 
-    char buf[100];
-    snprintf(buf, sizeof(buf)-1, "/var/run/%s.pid", p);
+    // Not a buffer of a fixed size, programs whose long names begin alike would share the shortened file name.
+    std::string file = std::string("/var/run/") + p + ".pid";
+    const char *buf = file.c_str();
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
     // verify we aren't already running, creating the file at the same time so that only one instance can succeed.
-- 
2.43.0

