From 7c342548629f228af632c34c284a43311fb94512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 01/31] fix: Sync: handle spurious wake-ups and a failing lock
 in the barrier

---
 threads/sync.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..3634abd 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -106,11 +106,14 @@ public:
 	 */
 	bool startBarrier()
 	{
-		if (!pthread_mutex_lock(&m_mutex))
+		if (pthread_mutex_lock(&m_mutex) != 0)
+			return false;
 
-		if (m_finishing) {
-			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
+		while (m_finishing) {
+			if (pthread_cond_wait(&m_finishCondition, &m_mutex) != 0) {
+				pthread_mutex_unlock(&m_mutex);
 				return false;
+			}
 		}
 
 		return true;
@@ -139,14 +142,17 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			// Spurious wake-ups are possible
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From 04c8ca5fd0105c8002518aae8b4938f36194e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 02/31] fix: LRU: limit the distance of the hands to the number
 of pages

---
 cache/lru.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..99bd53c 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -81,6 +81,9 @@ public:
 		if (handDiff < 0)
 			// Some default value
 			m_nextClear = size / 2;
+		else if (static_cast<unsigned long>(handDiff) >= size)
+			// The hands cannot be further apart than the number of pages
+			m_nextClear = size - 1;
 		else
 			m_nextClear = handDiff;
 
-- 
2.43.0


From 4c4efaee7433357d3c3f925bfb89787b2acc4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 03/31] fix: read the first element of arrays and structures as
 any basic type

ArrayType and StructType hid the converting overload of BasicType, so that
getInt() etc. copied the whole cell into the returned value.
---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..1025c9c 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -143,6 +143,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversion of the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..d27e04d 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -214,6 +214,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversion of the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From 1cf000b903452645fa93f1c12b8eb621a3513cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 04/31] fix: PointerArray: lock the array when a pointer is
 looked up or removed

---
 fortran/pointerarray.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..52638cf 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -61,9 +61,9 @@ private:
 	std::vector<T*> m_pointers;
 
 	/**
-	 * Lock, we use to make sure only one thread at a time adds a pointer
+	 * Lock, we use to make sure only one thread at a time accesses the array
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +85,9 @@ public:
 	 */
 	T* get(int i) const
 	{
+		// Adding a pointer might move the array
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +99,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0


From 8bc2352448519fdb8a14329a87ab869317f1d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 05/31] fix: lock MPI in MPIComm::barrier()

---
 mpi/mpicomm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f6d8d48..b916733 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -147,6 +147,8 @@ public:
 	 */
 	void barrier() const
 	{
+		std::lock_guard<Lock> lock(mpiLock);
+
 		MPI_Barrier(m_comm);
 	}
 
-- 
2.43.0


From cccb4856ced6e45af83b4340dd9d3945eb371347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 06/31] fix: create the MPI data type of arrays and structures
 completely before other threads use it

The check released its lock before the data type existed, did not use the
MPI lock, and considered a type valid whose creation failed.
---
 types/arraytype.h  | 29 +++++++++++++++++------------
 types/structtype.h | 31 ++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 1025c9c..cd16d70 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -44,6 +44,7 @@
 
 #include "basictype.h"
 #include "io/netcdfreader.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -79,8 +80,10 @@ public:
 	virtual ~ArrayType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 #endif // ASAGI_NOMPI
 	}
 
@@ -94,25 +97,27 @@ public:
 
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
-		// Lock the array size
-		m_lock.lock();
+		// Lock the array size and the mpi datatype
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
-			m_arraySize = arraySize;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			// Create the mpi datatype
-			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
-					&m_mpiType) != MPI_SUCCESS)
+			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
+					&m_mpiType) != MPI_SUCCESS) {
+				m_mpiType = MPI_DATATYPE_NULL;
 				return asagi::Grid::MPI_ERROR;
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			}
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
+			m_arraySize = arraySize;
+		} else {
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
 		}
diff --git a/types/structtype.h b/types/structtype.h
index d27e04d..62ad202 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -43,6 +43,7 @@
 #include <mutex>
 
 #include "basictype.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -128,8 +129,10 @@ public:
 	virtual ~StructType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 
 		delete [] m_blockLength;
 		delete [] m_displacements;
@@ -144,14 +147,13 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		// Lock the size and the mpi datatype
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
-			m_size = size;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Datatype tmpType;
 
 			// Create the mpi datatype
@@ -162,15 +164,18 @@ public:
 					m_types,
 					&tmpType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
-			if (MPI_Type_create_resized(tmpType, 0, size, &m_mpiType)
-					!= MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
 
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			int mpiResult = MPI_Type_create_resized(tmpType, 0, size, &m_mpiType);
+			MPI_Type_free(&tmpType);
+			if (mpiResult != MPI_SUCCESS) {
+				m_mpiType = MPI_DATATYPE_NULL;
 				return asagi::Grid::MPI_ERROR;
+			}
 
-			if (MPI_Type_free(&tmpType) != MPI_SUCCESS)
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 
 			// We do not need them anymore
 			delete [] m_blockLength;
@@ -181,9 +186,9 @@ public:
 			m_displacements = 0L;
 			m_types = 0L;
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
+			m_size = size;
+		} else {
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
 		}
-- 
2.43.0


From 5a7b5070e795eba84d713cab20435693e6c688db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 07/31] fix: nodeLocalRank(): use the MPI lock

---
 asagi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..761f249 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -38,12 +38,14 @@
 #include "asagi.h"
 
 #include <cassert>
+#include <mutex>
 
 #include "utils/logger.h"
 
 #include "grid/grid.h"
 #ifndef ASAGI_NOMPI
 #include "mpi/commthread.h"
+#include "mpi/mpicomm.h"
 #endif // ASAGI_NOMPI
 
 // Static c++ functions
@@ -88,6 +90,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 	procName_t procName;
 	int procNameLength;
 
+	std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+
 	MPI_Get_processor_name(procName, &procNameLength);
 	assert(procNameLength <= MPI_MAX_PROCESSOR_NAME);
 
-- 
2.43.0


From 30ec22afecae0fbc3616a5d6cc4072af378b11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 08/31] fix: nodeLocalRank(): never use a negative color

---
 asagi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 761f249..5e02b44 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -107,7 +107,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 		s2 = (s2 + s1) % 65521;
 	}
 
-	uint32_t hash = (s2 << 16) | s1;
+	// The color in MPI_Comm_split must not be negative
+	int hash = ((s2 << 16) | s1) & 0x7FFFFFFF;
 	int rank;
 	mpiResult = MPI_Comm_rank(comm, &rank);
 	assert(mpiResult == MPI_SUCCESS);
-- 
2.43.0


From 9ac27740da8901ad6856f6f42b7375340ef57233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 09/31] fix: pin the communication thread to the correct CPU
 for negative CPU ids

---
 mpi/commthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..9d5f4be 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From 1c6fd5bfed14d2bbdf26fddb4471c6fe7a44b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 10/31] fix: communication thread: no message before all
 processes know the receiver, lock the receivers

---
 mpi/commthread.h | 49 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 9d5f4be..e41235f 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -113,6 +113,9 @@ private:
 	/** Lock used for thread safety */
 	threads::Mutex m_lock;
 
+	/** Lock for the map of receivers */
+	threads::Mutex m_receiverLock;
+
 private:
 	CommThread()
 		: m_comm(MPI_COMM_NULL), m_group(MPI_GROUP_NULL), m_rank(0),
@@ -235,7 +238,15 @@ public:
 		ReceiverDetail detail;
 		detail.recv = &receiver;
 		MPI_Comm_group(comm, &detail.group);
-		m_receiver[tag] = detail;
+		{
+			std::lock_guard<threads::Mutex> receiverLock(m_receiverLock);
+			m_receiver[tag] = detail;
+		}
+
+		// No process is allowed to send messages before all processes know
+		// the receiver
+		if (MPI_Barrier(comm) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
 
 		return asagi::Grid::SUCCESS;
 	}
@@ -263,17 +274,34 @@ public:
 	 */
 	void send(int tag, int recv, message_t data)
 	{
-		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
-		if (it == m_receiver.end())
+		ReceiverDetail detail;
+		if (!findReceiver(tag, detail))
 			logWarning() << "ASAGI: Sending message from unregistered tag" << tag;
 		else {
 			int recvRank;
-			MPI_Group_translate_ranks(it->second.group, 1, &recv, m_group, &recvRank);
+			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
 			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
 private:
+	/**
+	 * Get the description of a registered receiver
+	 *
+	 * @return False if no receiver is registered for this tag
+	 */
+	bool findReceiver(int tag, ReceiverDetail &detail)
+	{
+		std::lock_guard<threads::Mutex> lock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return false;
+
+		detail = it->second;
+		return true;
+	}
+
 	/**
 	 * Main function of the communication thread
 	 */
@@ -296,18 +324,21 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				commThread.m_receiver.erase(data);
+				{
+					std::lock_guard<threads::Mutex> lock(commThread.m_receiverLock);
+					commThread.m_receiver.erase(data);
+				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-			std::unordered_map<int, ReceiverDetail>::const_iterator it = commThread.m_receiver.find(status.MPI_TAG);
-			if (it == commThread.m_receiver.end())
+			ReceiverDetail detail;
+			if (!commThread.findReceiver(status.MPI_TAG, detail))
 				logWarning() << "ASAGI: Received unregistered message with tag" << status.MPI_TAG;
 			else {
 				int senderRank;
-				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, it->second.group, &senderRank);
-				it->second.recv->recv(senderRank, data);
+				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, detail.group, &senderRank);
+				detail.recv->recv(senderRank, data);
 			}
 		}
 
-- 
2.43.0


From afe78c146691ab15d758ff8f1a9910a45931385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 11/31] fix: Numa: report a failed thread registration on all
 threads

---
 numa/numa.cpp | 53 +++++++++++++++++++++++++++++++++++----------------
 numa/numa.h   |  3 +++
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 469f4d2..1950ff9 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -48,7 +48,8 @@
 numa::Numa::Numa()
 	: m_totalThreads(1),
 	  m_initialized(false),
-	  m_keyError(false)
+	  m_keyError(false),
+	  m_registerError(asagi::Grid::SUCCESS)
 {
 	if (pthread_key_create(&m_ptkey, 0L) != 0)
 		// remember this error
@@ -57,7 +58,8 @@ numa::Numa::Numa()
 
 numa::Numa::~Numa()
 {
-	pthread_key_delete(m_ptkey);
+	if (!m_keyError)
+		pthread_key_delete(m_ptkey);
 }
 
 /**
@@ -79,18 +81,22 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 		return asagi::Grid::SUCCESS;
 	}
 
+	// An error of one thread is an error for all threads. Therefore, all
+	// threads have to reach the barrier.
+	asagi::Grid::Error err = asagi::Grid::SUCCESS;
+
 	// Get the NUMA domain
 #ifndef __APPLE__
 	int cpu = sched_getcpu();
 	if (cpu < 0)
-		return asagi::Grid::NUMA_ERROR;
+		err = asagi::Grid::NUMA_ERROR;
 #endif
 #if defined(ASAGI_NONUMA) || defined(__APPLE__)
 	int domain = 0;
 #else // ASAGI_NONUMA || __APPLE__
-	int domain = numa_node_of_cpu(cpu);
+	int domain = (err == asagi::Grid::SUCCESS ? numa_node_of_cpu(cpu) : -1);
 	if (domain < 0)
-		return asagi::Grid::NUMA_ERROR;
+		err = asagi::Grid::NUMA_ERROR;
 #endif // ASAGI_NONUMA || __APPLE__
 
 	// Lock all variables
@@ -99,6 +105,12 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 
 	// Get thead id
 	unsigned int threadId = m_syncThreads.waiting();
+	if (threadId == 0) {
+		// First thread, discard everything from a previous registration that failed
+		m_domains.clear();
+		m_masterThreads.clear();
+		m_registerError = asagi::Grid::SUCCESS;
+	}
 #if DEBUG_NUMA
 	// Each thread gets its own domain
 	domain = threadId;
@@ -130,27 +142,36 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 		masterThread = false;
 	}
 
+	// Check if the key was created successfully
+	if (m_keyError)
+		err = asagi::Grid::THREAD_ERROR;
+	else {
+		// Store the thread and domain id in the pthread key
+		uintptr_t ids = (static_cast<uintptr_t>(threadId) << sizeof(id_t)*8) | domainId;
+
+		if (pthread_setspecific(m_ptkey, reinterpret_cast<void*>(ids)) != 0)
+			err = asagi::Grid::THREAD_ERROR;
+	}
+
+	// Remember the first error
+	if (m_registerError == asagi::Grid::SUCCESS)
+		m_registerError = err;
+
 	// Last thread?
 	if (m_syncThreads.waiting() >= m_totalThreads-1)
-		m_initialized = true;
+		m_initialized = (m_registerError == asagi::Grid::SUCCESS);
 
 	// Wait for all threads
 	if (!m_syncThreads.waitBarrier(m_totalThreads))
 		return asagi::Grid::THREAD_ERROR;
-	if (!m_syncThreads.endBarrier())
-		return asagi::Grid::THREAD_ERROR;
 
-	// Check if the key was created successfully
-	if (m_keyError)
-		return asagi::Grid::THREAD_ERROR;
-
-	// Finally store the thread and domain id in the pthread key
-	uintptr_t ids = (static_cast<uintptr_t>(threadId) << sizeof(id_t)*8) | domainId;
+	// The error cannot change until all threads have left the barrier
+	err = m_registerError;
 
-	if (pthread_setspecific(m_ptkey, reinterpret_cast<void*>(ids)) != 0)
+	if (!m_syncThreads.endBarrier())
 		return asagi::Grid::THREAD_ERROR;
 
-	return asagi::Grid::SUCCESS;
+	return err;
 }
 
 /**
diff --git a/numa/numa.h b/numa/numa.h
index 236a114..d9e664a 100644
--- a/numa/numa.h
+++ b/numa/numa.h
@@ -95,6 +95,9 @@ private:
 	/** True, if the key could not be created */
 	bool m_keyError;
 
+	/** Error that occurred while registering the threads */
+	asagi::Grid::Error m_registerError;
+
 	/** Synchronization mechanism for the threads */
 	mutable threads::Sync m_syncThreads;
 
-- 
2.43.0


From 3a7ef35de50e2343e841eff94f06f05949dd54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 12/31] fix: open: an error of one NUMA domain or process is an
 error for all, nobody waits for a failed one

---
 grid/grid.cpp            | 17 +++++++++++++----
 grid/level/cache.h       |  2 ++
 grid/level/cachedist.h   |  3 +++
 grid/level/full.h        |  2 ++
 grid/level/level.h       | 28 +++++++++++++++++++++++++++
 mpi/mpicomm.h            | 21 ++++++++++++++++++++
 mpi/nompicomm.h          | 10 ++++++++++
 numa/numacomm.h          | 41 +++++++++++++++++++++++++++++++++++-----
 transfer/mpithreadfull.h | 22 +++++++++++++--------
 transfer/mpiwinfull.h    | 14 +++++++++++---
 10 files changed, 140 insertions(+), 20 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..29613c9 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -241,11 +241,20 @@ asagi::Grid::Error grid::Grid::open(const char* filename, unsigned int level)
 	}
 
 	// Synchronize the return value (also acts as a barrier)
-	asagi::Grid::Error err2 = m_numa.broadcast(err);
-	if (err2 != asagi::Grid::SUCCESS)
-		return err2;
+	// An error of one domain is an error for all threads
+	asagi::Grid::Error result = asagi::Grid::SUCCESS;
+	for (unsigned int i = 0; i < m_numa.totalThreads(); i++) {
+		asagi::Grid::Error threadErr = err;
 
-	return err;
+		asagi::Grid::Error err2 = m_numa.broadcast(threadErr, i);
+		if (err2 != asagi::Grid::SUCCESS)
+			return err2;
+
+		if (result == asagi::Grid::SUCCESS)
+			result = threadErr;
+	}
+
+	return result;
 }
 
 unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
diff --git a/grid/level/cache.h b/grid/level/cache.h
index 52712dc..aa0ee78 100644
--- a/grid/level/cache.h
+++ b/grid/level/cache.h
@@ -95,6 +95,8 @@ public:
 	{
 		asagi::Grid::Error err = Blocked<Type>::open(filename, varname,
 				blockSize, timeDimension, valuePos);
+		// The allocation requires all NUMA domains
+		err = this->numa().sync(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 7f185a4..73d90de 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -107,6 +107,9 @@ public:
 				blockSize, timeDimension,
 				cacheSize, cacheHandSpread,
 				valuePos);
+
+		// Do not initialize the transfer classes if another process failed
+		err = this->sync(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/full.h b/grid/level/full.h
index a2f794d..d25f323 100644
--- a/grid/level/full.h
+++ b/grid/level/full.h
@@ -94,6 +94,8 @@ public:
 	{
 		asagi::Grid::Error err = Blocked<Type>::open(filename, varname,
 				blockSize, timeDimension, valuePos);
+		// The allocation requires all NUMA domains
+		err = this->numa().sync(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..096a9f2 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -302,6 +302,34 @@ protected:
 		return *m_numaComm;
 	}
 
+	/**
+	 * Agrees on an error among all NUMA domains and all processes.
+	 * Also acts as a barrier.
+	 * This is a collective operation among the NUMA masters of all processes.
+	 *
+	 * @param err The error of this NUMA domain
+	 * @return SUCCESS if no domain of any process failed, an error otherwise
+	 */
+	asagi::Grid::Error sync(asagi::Grid::Error err)
+	{
+		// Check for NUMA errors from the constructor
+		if (m_numaComm == 0L)
+			return asagi::Grid::THREAD_ERROR;
+
+		err = m_numaComm->sync(err);
+
+		if (m_mpiComm->size() > 1) {
+			if (m_numaDomainId == 0)
+				err = m_mpiComm->sync(err);
+
+			asagi::Grid::Error err2 = m_numaComm->broadcast(err);
+			if (err2 != asagi::Grid::SUCCESS)
+				return err2;
+		}
+
+		return err;
+	}
+
 	/**
 	 * @return The domain ID on which this level was created.
 	 *  Should be the same as <code>numa().domainId()</code>
diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index b916733..f9e24c5 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -152,6 +152,27 @@ public:
 		MPI_Barrier(m_comm);
 	}
 
+	/**
+	 * Agrees on an error among all processes. Also acts as a barrier.
+	 *
+	 * @param err The error of this process
+	 * @return SUCCESS if no process failed, an error otherwise
+	 */
+	asagi::Grid::Error sync(asagi::Grid::Error err) const
+	{
+		if (m_size == 1)
+			return err;
+
+		std::lock_guard<Lock> lock(mpiLock);
+
+		int globalErr = err;
+		if (MPI_Allreduce(MPI_IN_PLACE, &globalErr, 1, MPI_INT, MPI_MAX, m_comm)
+				!= MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		return static_cast<asagi::Grid::Error>(globalErr);
+	}
+
 	/**
 	 * Reserves <code>num</code> consecutive tags in this communicator
 	 *
diff --git a/mpi/nompicomm.h b/mpi/nompicomm.h
index 4430edb..2540fe4 100644
--- a/mpi/nompicomm.h
+++ b/mpi/nompicomm.h
@@ -38,6 +38,8 @@
 #ifndef MPI_NOMPICOMM_H
 #define MPI_NOMPICOMM_H
 
+#include "asagi.h"
+
 namespace mpi
 {
 
@@ -76,6 +78,14 @@ public:
 	void barrier() const
 	{
 	}
+
+	/**
+	 * @return The error
+	 */
+	asagi::Grid::Error sync(asagi::Grid::Error err) const
+	{
+		return err;
+	}
 };
 
 }
diff --git a/numa/numacomm.h b/numa/numacomm.h
index 4f67bb8..f4d9100 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -121,6 +121,31 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Agrees on an error among all NUMA domains. Also acts as a barrier.
+	 * This is a collective operation among the NUMA masters.
+	 *
+	 * @param err The error of this NUMA domain
+	 * @return The error of the first domain that failed
+	 */
+	asagi::Grid::Error sync(asagi::Grid::Error err)
+	{
+		asagi::Grid::Error result = asagi::Grid::SUCCESS;
+
+		for (unsigned int i = 0; i < totalDomains(); i++) {
+			asagi::Grid::Error domainErr = err;
+
+			asagi::Grid::Error err2 = broadcast(domainErr, i);
+			if (err2 != asagi::Grid::SUCCESS)
+				return err2;
+
+			if (result == asagi::Grid::SUCCESS)
+				result = domainErr;
+		}
+
+		return result;
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
@@ -131,15 +156,21 @@ public:
 	template<class Allocator, typename T>
 	asagi::Grid::Error allocate(unsigned long size, T* &data)
 	{
-		if (domainId() == 0) {
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
+
+		if (domainId() == 0)
 			// Allocate the memory with the master thread
-			asagi::Grid::Error err = Allocator::allocate(size * totalDomains(), data);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+			err = Allocator::allocate(size * totalDomains(), data);
+
+		// All domains have to know if the allocation failed
+		err = sync(err);
+		if (err != asagi::Grid::SUCCESS) {
+			data = 0L;
+			return err;
 		}
 
 		// Broadcast the pointer to all domains
-		asagi::Grid::Error err = broadcast(data);
+		err = broadcast(data);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 1199a1a..a82fda9 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -108,8 +108,9 @@ public:
 
 	virtual ~MPIThreadFull()
 	{
-		if (m_numaDomainId == 0 && m_tag >= 0) {
-			mpi::CommThread::commThread.unregisterReceiver(m_tag);
+		if (m_numaDomainId == 0) {
+			if (m_tag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_tag);
 
 			delete m_sendRecvMutex;
 		}
@@ -139,16 +140,21 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
-		if (m_numaDomainId == 0) {
-			asagi::Grid::Error err = mpi::CommThread::commThread
-				.registerReceiver(m_comm, *this, m_tag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 
+		if (m_numaDomainId == 0) {
 			m_sendRecvMutex = new threads::Mutex();
+
+			err = mpi::CommThread::commThread
+				.registerReceiver(m_comm, *this, m_tag);
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_tag);
+		// All domains have to know if the receiver could not be registered
+		err = numaComm.sync(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index b9bf6b0..c749cc7 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -94,9 +94,10 @@ public:
 
 	virtual ~MPIWinFull()
 	{
-		if (m_numaDomainId == 0 && m_window != MPI_WIN_NULL) {
+		if (m_numaDomainId == 0)
 			delete m_winMutex;
 
+		if (m_numaDomainId == 0 && m_window != MPI_WIN_NULL) {
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 			MPI_Win_free(&m_window);
 		}
@@ -123,6 +124,8 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
+
 		if (m_numaDomainId == 0) {
 			unsigned int typeSize = type.size();
 
@@ -137,10 +140,15 @@ public:
 					MPI_INFO_NULL,
 					mpiComm.comm(),
 					&m_window) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
+		// All domains have to know if the window could not be created
+		err = numaComm.sync(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_winMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From ab017d84d82cc1eaca41845c678e3ada7cd2ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 13/31] fix: full distributed grid: load all blocks before
 other processes or domains can access them

---
 grid/level/fulldist.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 7536f77..70ef1b9 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -110,13 +110,17 @@ public:
 				blockSize, timeDimension,
 				cacheSize, cacheHandSpread,
 				valuePos);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
 
 		// Initialize the cache
-		err = Allocator::allocate(
-				this->typeSize() * this->totalBlockSize() * cacheSize,
-				m_cache);
+		if (err == asagi::Grid::SUCCESS)
+			err = Allocator::allocate(
+					this->typeSize() * this->totalBlockSize() * cacheSize,
+					m_cache);
+
+		// Other processes and domains are allowed to access the blocks as soon
+		// as the transfer classes are initialized. Make sure that all blocks are
+		// loaded.
+		err = this->sync(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From 62d293c5bb2b2dec26456c12dc419e4fd59a67fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 14/31] fix: distributed cache: initialize the dictionary of
 all NUMA domains before other processes can access it

---
 transfer/mpicache.h       | 19 +++++++-
 transfer/mpithreadcache.h | 81 +++++++++++++++++++++-------------
 transfer/mpiwincache.h    | 92 ++++++++++++++++++++++++---------------
 3 files changed, 124 insertions(+), 68 deletions(-)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..fe2821c 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -101,13 +101,22 @@ protected:
 		m_rankCacheSize = cacheSize * numaComm.totalDomains();
 
 		// Allocate the memory and broadcast the pointer
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
+
 		if (m_numaDomainId == 0) {
-			Allocator::allocate(
+			err = Allocator::allocate(
 					blockCount * totalDictEntrySize() * numaComm.totalDomains(),
 					m_dictionary);
+
+			// No process is allowed to continue if one process failed
+			err = mpiComm.sync(err);
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_dictionary);
+		err = numaComm.sync(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_dictionary);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
@@ -116,6 +125,12 @@ protected:
 				i < blockCount * totalDictEntrySize() * (m_numaDomainId+1); i++)
 			m_dictionary[i] = -1;
 
+		// The dictionary can be accessed by other processes if all NUMA domains
+		// have initialized their part
+		err = numaComm.sync(asagi::Grid::SUCCESS);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		return asagi::Grid::SUCCESS;
 	}
 
diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..25bba8c 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -323,14 +323,17 @@ public:
 
 	virtual ~MPIThreadCache()
 	{
-		if (m_numaDomainId == 0 && m_blockInfoTag >= 0) {
-			delete [] m_cacheManager;
-
-			mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+		if (m_numaDomainId == 0) {
+			if (m_blockInfoTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
+			if (m_transfererTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
+			if (m_adderTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
+			if (m_deleterTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
 
+			delete [] m_cacheManager;
 			delete [] m_mutexes;
 			delete m_infoMutex;
 			delete m_blockMutex;
@@ -363,8 +366,10 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
@@ -377,39 +382,31 @@ public:
 			// Create the mutexes for the blocks
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
-			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
 			m_tagOffset = mpiComm.reserveTags(3);
 
 			m_infoMutex = new threads::Mutex();
 			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
 		m_cacheManager[m_numaDomainId] = &cacheManager;
 
+		// Initialize the receivers after all domains have set their cache manager
+		err = numaComm.sync(asagi::Grid::SUCCESS);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		if (m_numaDomainId == 0)
+			err = registerReceivers(mpiComm);
+
+		// All domains have to know if a receiver could not be registered
+		err = numaComm.sync(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		err = numaComm.broadcast(m_mutexes);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -603,6 +600,30 @@ public:
 	}
 
 private:
+	/**
+	 * Registers all receivers at the communication thread
+	 */
+	asagi::Grid::Error registerReceivers(const mpi::MPIComm &mpiComm)
+	{
+		asagi::Grid::Error err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		return mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
+	}
+
 	/**
 	 * Retrieves a global offset of the block
 	 *
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..89b36b8 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -165,39 +165,19 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		// Setup the parent (including the MPI mutexes in the dictionary)
+		err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
-		if (m_numaDomainId == 0) {
-			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-
-			m_dictWinMutex = new threads::Mutex();
-
-			if (MPI_Win_create(dictionary(),
-				sizeof(long) * totalDictEntrySize() * blockCount * numaComm.totalDomains(),
-				sizeof(long),
-				MPI_INFO_NULL,
-				mpiComm.comm(),
-				&m_dictWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
-
-			// Create the MPI mutex
-			m_mpiMutex = new mpi::Mutex();
-			m_mpiMutex->init(mpiComm, m_dictWin, numaComm);
-
-			// Create cache window mutex
-			m_cacheWinMutex = new threads::Mutex();
-
-			// Create the window to access the cache
-			if (MPI_Win_create(cache,
-				m_typeSize * blockSize * rankCacheSize(),
-				m_typeSize,
-				MPI_INFO_NULL,
-				mpiComm.comm(),
-				&m_cacheWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
-		}
+		if (m_numaDomainId == 0)
+			err = createWindows(cache, blockCount, blockSize, mpiComm, numaComm);
+
+		// All domains have to know if the windows could not be created
+		err = numaComm.sync(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		err = numaComm.broadcast(m_dictWinMutex);
 		if (err != asagi::Grid::SUCCESS)
@@ -219,11 +199,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Initialize the mutex memory
-		for (unsigned long i = blockCount * m_numaDomainId;
-				i < blockCount * (m_numaDomainId+1); i++)
-			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
-
 		return asagi::Grid::SUCCESS;
 	}
 
@@ -570,6 +545,51 @@ public:
 		m_dictWinMutex->unlock();
 #endif // THREADSAFE_MPI
 	}
+
+private:
+	/**
+	 * Creates the windows and the corresponding mutexes.
+	 * Should only be called by one thread, after all NUMA domains have
+	 * initialized the dictionary.
+	 */
+	asagi::Grid::Error createWindows(unsigned char* cache,
+			unsigned long blockCount,
+			unsigned long blockSize,
+			mpi::MPIComm &mpiComm,
+			const numa::NumaComm &numaComm)
+	{
+		std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+
+		m_dictWinMutex = new threads::Mutex();
+		m_mpiMutex = new mpi::Mutex();
+		m_cacheWinMutex = new threads::Mutex();
+
+		// Initialize the mutex memory before other processes can access it
+		for (unsigned long i = 0; i < blockCount * numaComm.totalDomains(); i++)
+			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
+
+		if (MPI_Win_create(dictionary(),
+			sizeof(long) * totalDictEntrySize() * blockCount * numaComm.totalDomains(),
+			sizeof(long),
+			MPI_INFO_NULL,
+			mpiComm.comm(),
+			&m_dictWin) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		// Initialize the MPI mutex
+		m_mpiMutex->init(mpiComm, m_dictWin, numaComm);
+
+		// Create the window to access the cache
+		if (MPI_Win_create(cache,
+			m_typeSize * blockSize * rankCacheSize(),
+			m_typeSize,
+			MPI_INFO_NULL,
+			mpiComm.comm(),
+			&m_cacheWin) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		return asagi::Grid::SUCCESS;
+	}
 };
 
 #endif // ASAGI_NOMPI
-- 
2.43.0


From 8949d94f1c633fb28f313e4e126916dab41661fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 15/31] fix: distributed cache (communication thread): receive
 the entry with the tag used to send it

---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 25bba8c..233aa76 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -466,7 +466,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From 6e585840916eaa930893d70a89100b67786c5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 16/31] fix: distributed cache (communication thread): limit
 the tries to get a block from other processes

---
 grid/level/cachedist.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 73d90de..0dab687 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -74,6 +74,9 @@ private:
 	/** Number of blocks in the cache */
 	unsigned int m_cacheSize;
 
+	/** Number of tries to get a block from another MPI rank */
+	const static unsigned int MAX_TRANSFER_TRIES = 16;
+
 public:
 	/**
 	 * @copydoc Cache::Cache
@@ -173,9 +176,12 @@ public:
 				// The communication thread uses error detection. Which means, a block
 				// might get deleted between startTransfer and transfer. In this case,
 				// retrying another MPI rank might be worthwhile.
+				// However, two processes may wait for blocks from each other while
+				// their caches are locked. Thus, use the file after some tries.
 
 				bool retry;
 				bool received = false;
+				unsigned int tries = 0;
 
 				do {
 					retry = false;
@@ -191,7 +197,7 @@ public:
 						this->incCounter(perf::Counter::MPI);
 						received = true;
 					}
-				} while (retry);
+				} while (retry && ++tries < MAX_TRANSFER_TRIES);
 
 				if (!received)
 					this->loadBlock(index, data);
-- 
2.43.0


From 6ae0679781e687462a42b17d362cc6e48ad2b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 17/31] fix: communication thread: messages are received before
 the receiver is unregistered

---
 mpi/commthread.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index e41235f..fb8b081 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -280,7 +280,8 @@ public:
 		else {
 			int recvRank;
 			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
-			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
+			// Make sure the message is received before the receiver is unregistered
+			MPI_Ssend(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
-- 
2.43.0


From 0abbd1ac42d90dab2309cc288b60c8fcfa18d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 18/31] fix: levels are not moved while they are used by other
 threads, domains or processes

---
 grid/grid.cpp          | 5 +++++
 grid/simplecontainer.h | 9 ++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 29613c9..b0c6105 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -219,6 +219,11 @@ asagi::Grid::Error grid::Grid::open(const char* filename, unsigned int level)
 	if (err != asagi::Grid::SUCCESS)
 		return err;
 
+	// No thread is allowed to read from other levels while a level is added
+	err = m_numa.barrier();
+	if (err != asagi::Grid::SUCCESS)
+		return err;
+
 	if (domainMaster) {
 		// Initialize the containers
 		m_resizeOnce.saveExec(*this, &Grid::initContainers);
diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..40e5ed4 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -38,7 +38,7 @@
 #ifndef GRID_SIMPLECONTAINER_H
 #define GRID_SIMPLECONTAINER_H
 
-#include <vector>
+#include <deque>
 
 #include "typedcontainer.h"
 
@@ -54,8 +54,11 @@ template<class Level, class Type>
 class SimpleContainer : public TypedContainer<Type>
 {
 private:
-	/** All grids we control */
-	std::vector<Level> m_levels;
+	/**
+	 * All grids we control (levels must not be copied or moved once they are
+	 * open, other processes and domains use pointers to them)
+	 */
+	std::deque<Level> m_levels;
 
 public:
 	/**
-- 
2.43.0


From e580c710451bb4a1847bb057ed0a85b9164c1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 19/31] fix: full grid (communication thread): transfers of
 different levels use different tags

---
 transfer/mpithreadfull.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index a82fda9..6104ae5 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -181,7 +181,7 @@ public:
 
 		mpi::CommThread::commThread.send(m_tag, remoteRank, offset);
 
-		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, 0, m_comm, MPI_STATUS_IGNORE);
+		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, m_tag, m_comm, MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 
@@ -192,7 +192,7 @@ public:
 		int mpiResult; NDBG_UNUSED(mpiResult);
 
 		mpiResult = MPI_Send(const_cast<unsigned char*>(&m_data[blockId*m_blockSize*m_typeSize]),
-				m_blockSize, m_mpiType, sender, 0, m_comm);
+				m_blockSize, m_mpiType, sender, m_tag, m_comm);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 };
-- 
2.43.0


From fb9bc749b1ba165dc61d5c6c7f095ea250e87208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 20/31] fix: cache grid without MPI: use the NUMA communication
 if more than one NUMA domain exists

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index b0c6105..a43b108 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -361,9 +361,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From 1325df835665426fea2b76d2be2d2f0e487689ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 21/31] fix: getCounter(): use the counters of the requested
 level

---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index a43b108..3a7f09f 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -271,7 +271,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From 88293628995ccb461d87c21c05a04972e5ca1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 22/31] fix: open(): errors while reading the header of the
 file are errors of open

---
 grid/level/level.h  |  6 ++++--
 io/netcdfreader.cpp | 28 +++++++++++++++++++------
 io/netcdfreader.h   | 50 ++++++++++++++++++++++++++++++---------------
 3 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index 096a9f2..8c87e7e 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -230,9 +230,11 @@ protected:
 			m_size[i] = m_inputFile->getSize(i);
 
 			// Get offset and scaling
-			m_offset[i] = m_inputFile->getOffset(i);
+			if ((err = m_inputFile->getOffset(i, m_offset[i])) != asagi::Grid::SUCCESS)
+				return err;
 
-			m_scaling[i] = m_inputFile->getScaling(i);
+			if ((err = m_inputFile->getScaling(i, m_scaling[i])) != asagi::Grid::SUCCESS)
+				return err;
 		}
 
 		// Set default block size and calculate number of blocks
diff --git a/io/netcdfreader.cpp b/io/netcdfreader.cpp
index 801bcf4..f934212 100644
--- a/io/netcdfreader.cpp
+++ b/io/netcdfreader.cpp
@@ -88,8 +88,12 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 		return asagi::Grid::VAR_NOT_FOUND;
 	}
 
-	nc_inq_varndims(m_file, m_variable, &m_dimensions);
-	
+	if (nc_inq_varndims(m_file, m_variable, &m_dimensions) != NC_NOERR) {
+		nc_close(m_file);
+		m_file = -1;
+		return asagi::Grid::NOT_OPEN;
+	}
+
 	if (m_dimensions > MAX_DIMENSIONS) {
 		logDebug(m_rank) << "Unsupported number of variable dimensions:"
 			<< m_dimensions;
@@ -100,7 +104,11 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 	}
 
 	int dimIds[MAX_DIMENSIONS];
-	nc_inq_vardimid(m_file, m_variable, dimIds);
+	if (nc_inq_vardimid(m_file, m_variable, dimIds) != NC_NOERR) {
+		nc_close(m_file);
+		m_file = -1;
+		return asagi::Grid::NOT_OPEN;
+	}
 
 	m_names = new std::string[m_dimensions];
 	m_size = new size_t[m_dimensions];
@@ -111,7 +119,11 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 		char name[NC_MAX_NAME+1];
 		size_t size;
 
-		nc_inq_dim(m_file, dimIds[i], name, &size);
+		if (nc_inq_dim(m_file, dimIds[i], name, &size) != NC_NOERR) {
+			nc_close(m_file);
+			m_file = -1;
+			return asagi::Grid::NOT_OPEN;
+		}
 		m_names[i] = name;
 		m_size[i] = size;
 		
@@ -121,8 +133,12 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 	}
 	
 	nc_type type;
-	nc_inq_vartype(m_file, m_variable, &type);
-	nc_inq_type(m_file, type, 0L, &m_varSize);
+	if (nc_inq_vartype(m_file, m_variable, &type) != NC_NOERR
+			|| nc_inq_type(m_file, type, 0L, &m_varSize) != NC_NOERR) {
+		nc_close(m_file);
+		m_file = -1;
+		return asagi::Grid::NOT_OPEN;
+	}
 
 	return asagi::Grid::SUCCESS;
 }
diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 9d377de..4c5d3d0 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -137,49 +137,65 @@ public:
 	}
 	
 	/**
-	 * @return The offset of the grid in i-th direction
+	 * @param[out] offset The offset of the grid in i-th direction
+	 * @return An error if the file could not be read
 	 */
-	double getOffset(int i) const
+	asagi::Grid::Error getOffset(int i, double &offset) const
 	{
+		offset = 0;
 		if (i >= m_dimensions)
-			return 0;
+			return asagi::Grid::SUCCESS;
 
 		std::lock_guard<threads::Mutex> lock(netcdfLock);
 		int x;
-		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
-			return 0;
+		int result = nc_inq_varid(m_file, m_names[i].c_str(), &x);
+		if (result == NC_ENOTVAR)
+			return asagi::Grid::SUCCESS;
+		if (result != NC_NOERR)
+			return asagi::Grid::NOT_OPEN;
 
-		double result;
 		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &result);
-		return result;
+		if (nc_get_var1_double(m_file, x, &index, &offset) != NC_NOERR)
+			return asagi::Grid::NOT_OPEN;
+
+		return asagi::Grid::SUCCESS;
 	}
 	
 	/**
-	 * @return The scaling (the real distance between two cells)
+	 * @param[out] scaling The scaling (the real distance between two cells)
 	 *  in i-th direction
+	 * @return An error if the file could not be read
 	 */
-	double getScaling(int i) const
+	asagi::Grid::Error getScaling(int i, double &scaling) const
 	{
+		scaling = 0.;
 		if (i >= m_dimensions)
-			return 0.;
+			return asagi::Grid::SUCCESS;
 	
 		unsigned long size = getSize(i);
+		scaling = std::numeric_limits<double>::infinity();
 		if (size == 1)
-			return std::numeric_limits<double>::infinity();
+			return asagi::Grid::SUCCESS;
 
 		std::lock_guard<threads::Mutex> lock(netcdfLock);
+		scaling = 1;
 		int x;
-		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
-			return 1;
+		int result = nc_inq_varid(m_file, m_names[i].c_str(), &x);
+		if (result == NC_ENOTVAR)
+			return asagi::Grid::SUCCESS;
+		if (result != NC_NOERR)
+			return asagi::Grid::NOT_OPEN;
 
 		double first, last;
 		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &first);
+		if (nc_get_var1_double(m_file, x, &index, &first) != NC_NOERR)
+			return asagi::Grid::NOT_OPEN;
 		index = size - 1;
-		nc_get_var1_double(m_file, x, &index, &last);
+		if (nc_get_var1_double(m_file, x, &index, &last) != NC_NOERR)
+			return asagi::Grid::NOT_OPEN;
 	
-		return (last - first) / (size - 1);
+		scaling = (last - first) / (size - 1);
+		return asagi::Grid::SUCCESS;
 	}
 	
 	/**
-- 
2.43.0


From ed6c25ce84edfe7e178aa8e10a3defe023eddcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 23/31] fix: never use values of a block that could not be read
 from the file

---
 io/netcdfreader.cpp |  8 ++++++++
 io/netcdfreader.h   | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/io/netcdfreader.cpp b/io/netcdfreader.cpp
index f934212..be96708 100644
--- a/io/netcdfreader.cpp
+++ b/io/netcdfreader.cpp
@@ -143,6 +143,14 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 	return asagi::Grid::SUCCESS;
 }
 
+void io::NetCdfReader::checkRead(int result) const
+{
+	// Values outside of the range of the type are still converted
+	if (result != NC_NOERR && result != NC_ERANGE)
+		logError() << "ASAGI: Could not read from file" << m_filename
+			<< "(" << nc_strerror(result) << ")";
+}
+
 /**
  * Make netCDF accesses thread safe
  */
diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 4c5d3d0..37bc54a 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -254,6 +254,14 @@ private:
 	template<typename T>
 	void getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, T *buffer);
+
+	/**
+	 * Stops the program if the data could not be read, we cannot
+	 * continue with undefined values
+	 *
+	 * @param result The return value of the netCDF function
+	 */
+	void checkRead(int result) const;
 };
 
 /**
@@ -263,7 +271,7 @@ template<> inline
 void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, unsigned char *buffer)
 {
-	nc_get_varm_uchar(m_file, m_variable, offset, size, 0L, imap, buffer);
+	checkRead(nc_get_varm_uchar(m_file, m_variable, offset, size, 0L, imap, buffer));
 }
 
 /**
@@ -273,7 +281,7 @@ template<> inline
 void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, int *buffer)
 {
-	nc_get_varm_int(m_file, m_variable, offset, size, 0L, imap, buffer);
+	checkRead(nc_get_varm_int(m_file, m_variable, offset, size, 0L, imap, buffer));
 }
 
 /**
@@ -283,7 +291,7 @@ template<> inline
 void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, long *buffer)
 {
-	nc_get_varm_long(m_file, m_variable, offset, size, 0L, imap, buffer);
+	checkRead(nc_get_varm_long(m_file, m_variable, offset, size, 0L, imap, buffer));
 }
 
 /**
@@ -293,7 +301,7 @@ template<> inline
 void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, float *buffer)
 {
-	nc_get_varm_float(m_file, m_variable, offset, size, 0L, imap, buffer);
+	checkRead(nc_get_varm_float(m_file, m_variable, offset, size, 0L, imap, buffer));
 }
 
 /**
@@ -303,7 +311,7 @@ template<> inline
 void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, double *buffer)
 {
-	nc_get_varm_double(m_file, m_variable, offset, size, 0L, imap, buffer);
+	checkRead(nc_get_varm_double(m_file, m_variable, offset, size, 0L, imap, buffer));
 }
 
 /**
@@ -314,7 +322,7 @@ void NetCdfReader::getVar(const size_t *offset, const size_t *size,
 		const size_t *blockSize, const ptrdiff_t *imap, void *buffer)
 {
 	// Read the data unmapped (netCDF does not support mapping for non-builtin data types)
-	nc_get_vara(m_file, m_variable, offset, size, buffer);
+	checkRead(nc_get_vara(m_file, m_variable, offset, size, buffer));
 
 	// Mapping required?
 	bool doMapping = false;
-- 
2.43.0


From 347e80c009a94282532b1b7031856e0844dc5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 24/31] fix: default block size of the time dimension is 1

---
 grid/level/blocked.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..736b0de 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -103,20 +103,19 @@ protected:
 			timeDimension = -1;
 		}
 
-		// Set block size in time dimension
-		if ((timeDimension >= 0) && (blockSize[timeDimension] == 0)) {
-			logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
-			// C to Fortran mapping
-			m_blockSize[this->dimensions() - timeDimension - 1] = 1;
-		}
-
 		// Set default block size and calculate number of blocks and total block size
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
 				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
+				// (C to Fortran mapping for the time dimension)
+				if (static_cast<int>(this->dimensions() - i - 1) == timeDimension) {
+					logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
+					m_blockSize[i] = 1;
+				} else
+					m_blockSize[i] = 64;
+			}
 			else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
-- 
2.43.0


From 64d709c32621bdb21572771a91549bcc2baf2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 25/31] fix: distributed cache: deleting an entry that is not
 in the dictionary does not remove other entries

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index fe2821c..1f90e58 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -208,6 +208,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// The entry was already replaced by a newer one
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From d1b68a358987c671d90654b5e3869b43487888a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 26/31] fix: keep a valid communicator if it cannot be
 duplicated

---
 mpi/mpicomm.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f9e24c5..ffd5679 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -107,8 +107,13 @@ public:
 
 		freeComm();
 
-		if (MPI_Comm_dup(comm, &m_comm) != MPI_SUCCESS)
+		if (MPI_Comm_dup(comm, &m_comm) != MPI_SUCCESS) {
+			// Keep a valid communicator
+			m_comm = MPI_COMM_SELF;
+			m_rank = 0;
+			m_size = 1;
 			return asagi::Grid::MPI_ERROR;
+		}
 
 		if (MPI_Comm_rank(m_comm, &m_rank) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
-- 
2.43.0


From e2ea7174dc3dbd013719fb701750aa5b404b7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 27/31] fix: open(): report an error if the number of NUMA
 domains is not the same in all processes

---
 grid/level/level.h |  2 +-
 mpi/mpicomm.h      | 14 ++++++++++----
 mpi/nompicomm.h    |  2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index 8c87e7e..43809c7 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -322,7 +322,7 @@ protected:
 
 		if (m_mpiComm->size() > 1) {
 			if (m_numaDomainId == 0)
-				err = m_mpiComm->sync(err);
+				err = m_mpiComm->sync(err, m_numaComm->totalDomains());
 
 			asagi::Grid::Error err2 = m_numaComm->broadcast(err);
 			if (err2 != asagi::Grid::SUCCESS)
diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index ffd5679..0035387 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -161,21 +161,27 @@ public:
 	 * Agrees on an error among all processes. Also acts as a barrier.
 	 *
 	 * @param err The error of this process
+	 * @param numaDomains The number of NUMA domains in this process (has to be
+	 *  the same in all processes)
 	 * @return SUCCESS if no process failed, an error otherwise
 	 */
-	asagi::Grid::Error sync(asagi::Grid::Error err) const
+	asagi::Grid::Error sync(asagi::Grid::Error err, unsigned int numaDomains = 1) const
 	{
 		if (m_size == 1)
 			return err;
 
 		std::lock_guard<Lock> lock(mpiLock);
 
-		int globalErr = err;
-		if (MPI_Allreduce(MPI_IN_PLACE, &globalErr, 1, MPI_INT, MPI_MAX, m_comm)
+		int global[3] = {err, static_cast<int>(numaDomains), -static_cast<int>(numaDomains)};
+		if (MPI_Allreduce(MPI_IN_PLACE, global, 3, MPI_INT, MPI_MAX, m_comm)
 				!= MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
 
-		return static_cast<asagi::Grid::Error>(globalErr);
+		if (global[0] == asagi::Grid::SUCCESS && global[1] != -global[2])
+			// The blocks cannot be distributed
+			return asagi::Grid::NUMA_ERROR;
+
+		return static_cast<asagi::Grid::Error>(global[0]);
 	}
 
 	/**
diff --git a/mpi/nompicomm.h b/mpi/nompicomm.h
index 2540fe4..d4e5dae 100644
--- a/mpi/nompicomm.h
+++ b/mpi/nompicomm.h
@@ -82,7 +82,7 @@ public:
 	/**
 	 * @return The error
 	 */
-	asagi::Grid::Error sync(asagi::Grid::Error err) const
+	asagi::Grid::Error sync(asagi::Grid::Error err, unsigned int = 1) const
 	{
 		return err;
 	}
-- 
2.43.0


From 9b874ca10b2180fc487987de963393023f41eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 28/31] fix: communication thread: free the MPI groups, not
 initialized if the thread cannot be started

---
 mpi/commthread.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index fb8b081..966d856 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -154,8 +154,11 @@ public:
 			return asagi::Grid::MPI_ERROR;
 
 		// Start the thread
-		if (pthread_create(&m_thread, 0L, &commThreadHandler, 0L) != 0)
+		if (pthread_create(&m_thread, 0L, &commThreadHandler, 0L) != 0) {
+			MPI_Group_free(&m_group);
+			MPI_Comm_free(&m_comm);
 			return asagi::Grid::THREAD_ERROR;
+		}
 
 #ifndef __APPLE__
 		// Pin the thread
@@ -203,10 +206,14 @@ public:
 		m_nextTag = 0;
 		if (!m_receiver.empty()) {
 			logWarning() << "ASAGI: Not all receivers are removed correctly.";
+			for (std::unordered_map<int, ReceiverDetail>::iterator it = m_receiver.begin();
+					it != m_receiver.end(); ++it)
+				MPI_Group_free(&it->second.group);
 			m_receiver.clear();
 		}
 
-		// Free the communicator
+		// Free the group and the communicator
+		MPI_Group_free(&m_group);
 		MPI_Comm_free(&m_comm);
 	}
 
@@ -327,7 +334,11 @@ private:
 
 				{
 					std::lock_guard<threads::Mutex> lock(commThread.m_receiverLock);
-					commThread.m_receiver.erase(data);
+					std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
+					if (it != commThread.m_receiver.end()) {
+						MPI_Group_free(&it->second.group);
+						commThread.m_receiver.erase(it);
+					}
 				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
-- 
2.43.0


From ba8fee759602e6b357504d72ae5d2dc8670aa310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 29/31] fix: structs: report an error if the elements do not
 fit into the type of the file

StructType::check() accepted variables with a type smaller than the
elements of the struct. The extent of the MPI type was then smaller than
its true extent and transfers wrote past the end of the buffers.
---
 types/structtype.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/types/structtype.h b/types/structtype.h
index 62ad202..217c796 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -63,6 +63,9 @@ private:
 	/** Size of this struct */
 	unsigned int m_size;
 
+	/** Number of bytes covered by the elements (lower bound for the size) */
+	unsigned long m_minSize;
+
 #ifndef ASAGI_NOMPI
 	/** Number of blocks in this struct */
 	unsigned int m_count;
@@ -92,6 +95,14 @@ private:
 	{
 		m_size = 0;
 
+		m_minSize = 0;
+		for (unsigned int i = 0; i < count; i++) {
+			const unsigned long end = displacements[i]
+				+ blockLength[i] * elementSize(types[i]);
+			if (end > m_minSize)
+				m_minSize = end;
+		}
+
 #ifndef ASAGI_NOMPI
 		m_count = count;
 		// We can not create the final mpi datatype, because we do not
@@ -151,6 +162,10 @@ public:
 		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
+			// The elements of the struct have to fit into the type of the file
+			if (size < m_minSize)
+				return asagi::Grid::INVALID_VAR_SIZE;
+
 #ifndef ASAGI_NOMPI
 			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 
@@ -229,6 +244,28 @@ public:
 	{
 		Type::copy(data, buf, m_size);
 	}
+
+private:
+	/**
+	 * @return The size of a basic type
+	 */
+	static unsigned long elementSize(asagi::Grid::Type type)
+	{
+		switch (type) {
+		case asagi::Grid::BYTE:
+			return sizeof(unsigned char);
+		case asagi::Grid::INT:
+			return sizeof(int);
+		case asagi::Grid::LONG:
+			return sizeof(long);
+		case asagi::Grid::FLOAT:
+			return sizeof(float);
+		case asagi::Grid::DOUBLE:
+			return sizeof(double);
+		}
+
+		return 0;
+	}
 };
 
 Type* createStruct(
-- 
2.43.0


From 36d73cdac9cb9266483caef9e1f886e6503d3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 30/31] fix: level: close the file of a failed open before the
 level is opened again

---
 grid/level/level.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index 43809c7..4c5bf00 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -218,7 +218,8 @@ protected:
 
 		asagi::Grid::Error err;
 
-		// Open NetCDF file
+		// Open NetCDF file (a previous try to open this level might have failed)
+		delete m_inputFile;
 		m_inputFile = new io::NetCdfReader(filename, comm().rank());
 		if ((err = m_inputFile->open(varname)) != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From aaf1462fe1cb8bb5b51c2b9e7d3c1fc7cb3f1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:01 +0000
Subject: [PATCH 31/31] fix: pass-through: free the buffer of a failed open
 before the level is opened again

---
 grid/level/passthrough.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grid/level/passthrough.h b/grid/level/passthrough.h
index 864cf92..f867810 100644
--- a/grid/level/passthrough.h
+++ b/grid/level/passthrough.h
@@ -92,6 +92,8 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		// Another domain might have failed in a previous try to open this level
+		delete [] m_buf;
 		m_buf = new unsigned char[this->typeSize()
 				* this->numa().totalThreads()];
 
-- 
2.43.0

