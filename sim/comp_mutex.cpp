// C12: mpi::Mutex, used the way the distributed cache uses it
#include "comp.hpp"
#include "mpi/mpicomm.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "mpi/mutex.h"
namespace {
struct Obj { mpi::MPIComm *comm = nullptr; mpi::Mutex *m = nullptr; long *mem = nullptr; MPI_Win win = MPI_WIN_NULL; threads::Mutex *winMutex = nullptr; };
std::vector<Obj> objs;
numa::Numa *nu; numa::NumaComm *nc;
int slots; bool sharedComm;

long &holder(int o, int r, int s) { auto &v = compState["holder"]; size_t k = (o * nRanks + r) * slots + s; if (v.size() <= k) v.resize(k + 64, -1); return v[k]; }
long lockIt(int o, int r, int s)
{
	Obj &x = objs[o]; long l;
	Call c;
	mpi::MPIComm::mpiLock.lock();
#ifndef THREADSAFE_MPI
	x.winMutex->lock();
#endif
	MPI_Win_lock(MPI_LOCK_EXCLUSIVE, r, 0, x.win);
	l = x.m->acquire(r, s);
	MPI_Win_unlock(r, x.win);
#ifndef THREADSAFE_MPI
	x.winMutex->unlock();
#endif
	x.m->wait(l);
	return l;
}
void unlockIt(int o, int r, int s)
{
	Obj &x = objs[o];
	Call c;
#ifndef THREADSAFE_MPI
	x.winMutex->lock();
#endif
	MPI_Win_lock(MPI_LOCK_EXCLUSIVE, r, 0, x.win);
	x.m->release(r, s);
	MPI_Win_unlock(r, x.win);
#ifndef THREADSAFE_MPI
	x.winMutex->unlock();
#endif
	mpi::MPIComm::mpiLock.unlock();
}
void run(int t)
{
	for (auto &w : opsOf(t)) {
		int o = w.i(1) % objs.size(), r = w.i(2) % nRanks, s = w.i(3) % slots;
		cur->op = fmt("lock %d of object %d on process %d", s, o, r);
		long l = lockIt(o, r, s);
		if (holder(o, r, s) >= 0) violation("mutual-exclusion", fmt("thread %d of process %d acquires lock %d of object %d on process %d while %s holds it", t, myRank, s, o, r, fibers[holder(o, r, s)]->name.c_str()));
		holder(o, r, s) = cur->id;
		probe(l >= 0 ? "lock_handed_over" : "lock_was_free");
		for (int i = 0; i < w.kv("hold", 1); i++) point(P_SYNC);
		if (holder(o, r, s) != cur->id) violation("mutual-exclusion", "the lock was taken by another thread");
		holder(o, r, s) = -1;
		unlockIt(o, r, s);
		cur->op.clear();
	}
}
}
extern "C" void comp_start(const CompScenario *c)
{
	parseAll(c);
	Words su = setup("locks"); int n = std::max<long>(1, su.kv("objects", 1)); slots = std::max<long>(1, su.kv("slots", 1)); sharedComm = su.kv("shared", 0);
	objs.resize(n);
	for (int t = 0; t < compThreads; t++) start(t, [t, n] {
		if (t == 0) { Call c; nu = new numa::Numa(); nu->setThreads(compThreads); }
		hbarrier(fmt("a%d", myRank), compThreads);
		{ bool m; Call c; nu->registerThread(m, false); if (m) nc = nu->createComm(); }
		hbarrier(fmt("b%d", myRank), compThreads);
		if (t == 0) {
			Call c;
			for (int i = 0; i < n; i++) {
				Obj &x = objs[i];
				if (sharedComm && i) x.comm = objs[0].comm;
				else { x.comm = new mpi::MPIComm(); x.comm->init(MPI_COMM_WORLD); }
				x.winMutex = new threads::Mutex(); x.m = new mpi::Mutex();
				x.mem = new long[slots];
				for (int k = 0; k < slots; k++) x.m->initMutexMem(x.mem[k]);
				x.comm->barrier();
				{ std::lock_guard<mpi::Lock> g(mpi::MPIComm::mpiLock); MPI_Win_create(x.mem, slots * sizeof(long), sizeof(long), MPI_INFO_NULL, x.comm->comm(), &x.win); }
				x.m->init(*x.comm, x.win, *nc);
			}
		}
		hbarrier(fmt("c%d", myRank), compThreads);
		run(t);
		hbarrier("end", compThreads * nRanks);
		// all locks are free again
		if (t == 0 && myRank == 0) for (int o = 0; o < n; o++) for (int r = 0; r < nRanks; r++) for (int s = 0; s < slots; s++) {
			cur->op = "final check";
			long l = lockIt(o, r, s);
			if (l >= 0) violation("mutual-exclusion", fmt("lock %d of object %d on process %d is still held after every thread released it", s, o, r));
			unlockIt(o, r, s);
			probe("locks_free_at_end");
		}
		hbarrier("end2", compThreads * nRanks);
		if (t == 0) {
			Call c;
			for (int i = 0; i < n; i++) {
				Obj &x = objs[i];
				{ std::lock_guard<mpi::Lock> g(mpi::MPIComm::mpiLock); MPI_Win_free(&x.win); }
				delete x.m; delete x.winMutex; delete[] x.mem;
			}
			for (int i = 0; i < n; i++) if (!(sharedComm && i)) delete objs[i].comm;
			delete nc; delete nu;
		}
	});
}
