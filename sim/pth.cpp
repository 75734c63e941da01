#include "plat.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <cerrno>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <memory>

namespace sim {
Platform platform;
std::map<int, KeyTable> keys;
uint64_t lockOps;

struct Waiter { Fiber *f; bool signaled; };
static std::unordered_map<void *, std::vector<Waiter *>> conds;
static std::vector<Fiber *> sutThreads;

void resetPlatform() { conds.clear(); sutThreads.clear(); for (auto &k : keys) for (auto &l : k.second.live) (void)l; }
int liveThreads(int rank) { int n = 0; for (Fiber *f : sutThreads) if (f->rank == rank && !(f->done && (f->joined || f->detached))) n++; return n; }

static const int DEAD = 0x7DEAD001;
static inline int me() { return cur ? cur->id + 1 : 0x7FFF; }

struct Mx { int owner; int count; int dead; int pad; int kind; };

static int lockWord(int *w, size_t sz, bool tryIt, const char *what)
{
	if (cur) point(P_SYNC);
	checkRange(w, sz, true, what);
	lockOps++;
	if (*w == DEAD) violation("bad-lock", fmt("%s: lock is already destroyed", what));
	if (*w) {
		if (tryIt) { if (cur) probe("lock_try_failed"); return EBUSY; }
		if (!cur) violation("deadlock", "lock held during static initialisation");
		probe("lock_contended");
		block([w] { return *w == 0 || *w == (int)0xDDDDDDDD || *w == DEAD; }, what);
		checkRange(w, sz, true, what);
		if (*w) violation("bad-lock", fmt("%s: lock was destroyed while a thread waits for it", what));
	}
	*w = me();
	return 0;
}
static int unlockWord(int *w, size_t sz, const char *what)
{
	checkRange(w, sz, true, what);
	if (*w == 0) violation("bad-lock", fmt("%s: the lock is not locked", what));
	if (*w == DEAD) violation("bad-lock", fmt("%s: the lock is destroyed", what));
	*w = 0;
	if (cur) point(P_SYNC);
	return 0;
}

static int mutexLock(pthread_mutex_t *pm, bool tryIt)
{
	Mx *m = (Mx *)pm;
	checkRange(m, sizeof(pthread_mutex_t), true, "mutex lock");
	if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->owner == me()) { m->count++; return 0; }
	if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK && m->owner == me()) return tryIt ? EBUSY : EDEADLK;
	int r = lockWord(&m->owner, sizeof(pthread_mutex_t), tryIt, "mutex");
	if (!r) m->count = 1;
	return r;
}
static int mutexUnlock(pthread_mutex_t *pm)
{
	Mx *m = (Mx *)pm;
	checkRange(m, sizeof(pthread_mutex_t), true, "mutex unlock");
	if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE && --m->count > 0) return 0;
	return unlockWord(&m->owner, sizeof(pthread_mutex_t), "mutex unlock");
}

static int condWait(void *c, size_t csz, pthread_mutex_t *m, uint64_t deadline)
{
	checkRange(c, csz, true, "condition wait");
	point(P_SYNC);
	Mx *mx = (Mx *)m;
	checkRange(m, sizeof *m, true, "condition wait");
	if (mx->owner != me()) violation("bad-lock", "condition wait without holding the mutex");
	Waiter *w = new Waiter{cur, false};
	conds[c].push_back(w);
	int cnt = mx->count;
	mx->count = 0; mx->owner = 0;
	bool spur = decide(K_SPUR, 2, cfg.pSpur) == 1;
	bool timeout = deadline && decide(K_SPUR, 2, 0.2) == 1;
	if (spur) { shr->faults[F_SPURIOUS]++; point(P_SYNC); }
	else if (!timeout) blockUntil([w] { return w->signaled; }, deadline, "condition");
	checkRange(c, csz, true, "condition wait");
	int ret = 0;
	if (!w->signaled) {
		auto &v = conds[c];
		for (size_t i = 0; i < v.size(); i++) if (v[i] == w) { v.erase(v.begin() + i); break; }
		if (!spur) ret = ETIMEDOUT;
	}
	delete w;
	// reacquire
	lockWord(&mx->owner, sizeof *m, false, "mutex (after condition wait)");
	mx->count = cnt;
	return ret;
}
static int condSignal(void *c, size_t csz, bool all)
{
	checkRange(c, csz, true, "condition signal");
	point(P_SYNC);
	auto &v = conds[c];
	if (all) { for (Waiter *w : v) w->signaled = true; v.clear(); }
	else if (!v.empty()) { size_t i = decide(K_WAKE, v.size(), 0.5); v[i]->signaled = true; v.erase(v.begin() + i); }
	return 0;
}
static int condDestroy(void *c)
{
	auto it = conds.find(c);
	if (it != conds.end()) {
		if (!it->second.empty()) violation("bad-lock", "condition variable destroyed while threads wait on it");
		conds.erase(it);
	}
	return 0;
}

static void sleepFor(uint64_t ns)
{
	uint64_t until = simClock + ns / 100 + 1;
	blockUntil([] { return false; }, until, "sleep");
}

struct ThreadArg { void *(*fn)(void *); };

static int startThread(void *(*fn)(void *), void *arg, const char *kind)
{
	static int n = 0;
	Fiber *f = spawn(cur->rank, fmt("r%d/%s%d", cur->rank, kind, n++ % 1000), nullptr);
	f->cfn = fn; f->carg = arg; f->daemon = true; f->cpu = cur->cpu;
	sutThreads.push_back(f);
	trace("start thread %s", f->name.c_str());
	return f->id;
}
static Fiber *threadOf(unsigned long t)
{
	long id = (long)t - 0x7000;
	if (id < 0 || id >= (long)fibers.size() || fibers[id]->net) return nullptr;
	return fibers[id];
}
static int joinThread(unsigned long t, void **ret)
{
	Fiber *f = threadOf(t);
	if (!f || f->joined || f->detached || f == cur) violation("bad-join", "join of a thread that is not joinable");
	block([f] { return f->done; }, "thread end");
	f->joined = true;
	if (ret) *ret = f->cret;
	return 0;
}

} // namespace sim

using namespace sim;

extern "C" {

int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	Guard g; checkRange(m, sizeof *m, true, "mutex init");
	memset(m, 0, sizeof *m);
	if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((Mx *)m)->kind = k; }
	return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m)
{
	Guard g; checkRange(m, sizeof *m, true, "mutex destroy");
	Mx *x = (Mx *)m;
	if (x->owner == DEAD) violation("bad-lock", "mutex destroyed twice");
	if (x->owner) violation("bad-lock", "mutex destroyed while locked");
	x->owner = DEAD;
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { Guard g; return mutexLock(m, false); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { Guard g; return mutexLock(m, true); }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { Guard g; return mutexLock(m, false); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { Guard g; return mutexUnlock(m); }

int sim_pthread_spin_init(pthread_spinlock_t *s, int) { Guard g; checkRange((void *)s, 4, true, "spin lock init"); *s = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *s)
{
	Guard g; checkRange((void *)s, 4, true, "spin lock destroy");
	if (*s == DEAD) violation("bad-lock", "spin lock destroyed twice");
	if (*s) violation("bad-lock", "spin lock destroyed while locked");
	*s = DEAD; return 0;
}
int sim_pthread_spin_lock(pthread_spinlock_t *s) { Guard g; return lockWord((int *)s, 4, false, "lock"); }
int sim_pthread_spin_trylock(pthread_spinlock_t *s) { Guard g; return lockWord((int *)s, 4, true, "lock"); }
int sim_pthread_spin_unlock(pthread_spinlock_t *s) { Guard g; return unlockWord((int *)s, 4, "unlock"); }

struct Rw { int writer; int readers; };
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { Guard g; Rw *r = (Rw *)l; if (r->writer || r->readers) violation("bad-lock", "rwlock destroyed while locked"); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { Guard g; point(P_SYNC); Rw *r = (Rw *)l; checkRange(l, sizeof *l, true, "rwlock"); block([r] { return !r->writer; }, "rwlock"); r->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { Guard g; point(P_SYNC); Rw *r = (Rw *)l; checkRange(l, sizeof *l, true, "rwlock"); block([r] { return !r->writer && !r->readers; }, "rwlock"); r->writer = me(); return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { Guard g; point(P_SYNC); Rw *r = (Rw *)l; if (r->writer) return EBUSY; r->readers++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { Guard g; point(P_SYNC); Rw *r = (Rw *)l; if (r->writer || r->readers) return EBUSY; r->writer = me(); return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { Guard g; Rw *r = (Rw *)l; if (r->writer) r->writer = 0; else if (r->readers) r->readers--; else violation("bad-lock", "rwlock not locked"); point(P_SYNC); return 0; }

struct Bar { unsigned n, in, round; };
int sim_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) { Bar *x = (Bar *)b; x->n = n; x->in = 0; x->round = 0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t *) { return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *b)
{
	Guard g; point(P_SYNC); Bar *x = (Bar *)b; checkRange(b, sizeof *b, true, "barrier");
	unsigned r = x->round;
	if (++x->in == x->n) { x->in = 0; x->round++; return PTHREAD_BARRIER_SERIAL_THREAD; }
	block([x, r] { return x->round != r; }, "barrier"); return 0;
}

int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { Guard g; checkRange(c, sizeof *c, true, "condition init"); memset((void *)c, 0, sizeof *c); conds.erase(c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { Guard g; checkRange(c, sizeof *c, true, "condition destroy"); return condDestroy(c); }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { Guard g; return condWait(c, sizeof *c, m, 0); }
static uint64_t deadlineOf(const struct timespec *t) { uint64_t d = ((uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec) / 100; return d ? d : 1; }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { Guard g; return condWait(c, sizeof *c, m, deadlineOf(t)); }
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { Guard g; return condWait(c, sizeof *c, m, deadlineOf(t)); }
int sim_pthread_cond_signal(pthread_cond_t *c) { Guard g; return condSignal(c, sizeof *c, false); }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { Guard g; return condSignal(c, sizeof *c, true); }
// std::condition_variable
struct ULock { pthread_mutex_t *m; bool owns; };
void sim_cv_wait(pthread_cond_t *c, ULock *l) { Guard g; condWait(c, sizeof *c, l->m, 0); }
void sim_cv_one(pthread_cond_t *c) { Guard g; condSignal(c, sizeof *c, false); }
void sim_cv_all(pthread_cond_t *c) { Guard g; condSignal(c, sizeof *c, true); }
void sim_cv_ctor(pthread_cond_t *c) { Guard g; memset((void *)c, 0, sizeof *c); conds.erase(c); }
void sim_cv_dtor(pthread_cond_t *c) { Guard g; condDestroy(c); }

int sim_sem_init(sem_t *s, int, unsigned v) { *(unsigned *)s = v; return 0; }
int sim_sem_destroy(sem_t *) { return 0; }
int sim_sem_wait(sem_t *s) { Guard g; point(P_SYNC); unsigned *v = (unsigned *)s; checkRange(v, 4, true, "semaphore"); block([v] { return *v > 0; }, "semaphore"); --*v; return 0; }
int sim_sem_trywait(sem_t *s) { Guard g; point(P_SYNC); unsigned *v = (unsigned *)s; if (!*v) { errno = EAGAIN; return -1; } --*v; return 0; }
int sim_sem_post(sem_t *s) { Guard g; unsigned *v = (unsigned *)s; checkRange(v, 4, true, "semaphore"); ++*v; point(P_SYNC); return 0; }

int sim_pthread_once(pthread_once_t *o, void (*fn)())
{
	Guard g; if (cur) point(P_SYNC);
	volatile int *v = (volatile int *)o;
	for (;;) {
		if (*v == 2) return 0;
		if (*v == 0) break;
		block([v] { return *v != 1; }, "one-time initialisation");
	}
	*v = 1;
	int d = 0; if (cur) { d = cur->depth; cur->depth = d - 1; }
	try { fn(); } catch (...) { if (cur) cur->depth = d; *v = 0; throw; }
	if (cur) cur->depth = d;
	*v = 2;
	if (cur) point(P_SYNC);
	return 0;
}
int sim___cxa_guard_acquire(unsigned char *gd)
{
	Guard g;
	if (cur) point(P_SYNC);
	if (gd[0]) return 0;
	if (gd[1]) block([gd] { return !gd[1]; }, "static initialisation");
	if (gd[0]) return 0;
	gd[1] = 1; return 1;
}
void sim___cxa_guard_release(unsigned char *gd) { gd[0] = 1; gd[1] = 0; }
void sim___cxa_guard_abort(unsigned char *gd) { gd[1] = 0; }

int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	Guard g; point(P_SYNC);
	if (fault(F_THREAD_CREATE)) return EAGAIN;
	*t = 0x7000 + startThread(fn, arg, "comm");
	point(P_SYNC);
	return 0;
}
int sim_pthread_join(pthread_t t, void **r) { Guard g; point(P_SYNC); return joinThread(t, r); }
int sim_pthread_detach(pthread_t t) { Guard g; Fiber *f = threadOf(t); if (f) f->detached = true; return 0; }
pthread_t sim_pthread_self() { return cur ? 0x7000 + cur->id : 0x6FFF; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static void setAff(Fiber *f, size_t n, const cpu_set_t *c)
{
	f->affinity.clear(); f->pinned = true;
	for (size_t i = 0; i < n * 8 && i < CPU_SETSIZE; i++) if (CPU_ISSET(i, c)) f->affinity.insert(i);
}
static bool affOk(size_t n, const cpu_set_t *c)
{
	for (size_t i = 0; i < n * 8 && i < CPU_SETSIZE; i++) if (CPU_ISSET(i, c) && (int)i < platform.cpus) return true;
	return false; // the kernel rejects masks without a usable CPU
}
int sim_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c)
{
	Guard g; point(P_SYNC);
	Fiber *f = threadOf(t); if (!f || f->joined) return ESRCH;
	if (!affOk(n, c)) return EINVAL;
	setAff(f, n, c); return 0;
}
int sim_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *c)
{
	Guard g; memset(c, 0, n); Fiber *f = threadOf(t); if (!f) return ESRCH;
	for (int i = 0; i < platform.cpus; i++) if (!f->pinned || f->affinity.count(i)) CPU_SET(i, c);
	return 0;
}
int sim_sched_setaffinity(pid_t, size_t n, const cpu_set_t *c) { Guard g; if (!affOk(n, c)) { errno = EINVAL; return -1; } setAff(cur, n, c); return 0; }

int sim_pthread_key_create(pthread_key_t *k, void (*)(void *))
{
	Guard g; if (cur) point(P_SYNC);
	if (fault(F_KEY_CREATE)) return EAGAIN;
	KeyTable &t = keys[rank()];
	size_t i = 0; while (i < t.live.size() && t.live[i]) i++;
	if (i == t.live.size()) { t.live.push_back(0); t.seq.push_back(0); }
	t.live[i] = 1; t.seq[i]++;
	for (Fiber *f : fibers) if (f->rank == rank() && f->tls.size() > i) f->tls[i] = nullptr;
	*k = i; return 0;
}
int sim_pthread_key_delete(pthread_key_t k)
{
	Guard g; if (cur) point(P_SYNC);
	KeyTable &t = keys[rank()];
	if (k >= t.live.size() || !t.live[k]) violation("bad-key", fmt("deletion of thread key %u, which does not exist", k));
	t.live[k] = 0; return 0;
}
void *sim_pthread_getspecific(pthread_key_t k)
{
	KeyTable &t = keys[rank()];
	if (!cur || k >= t.live.size() || !t.live[k] || k >= cur->tls.size()) return nullptr;
	return cur->tls[k];
}
int sim_pthread_setspecific(pthread_key_t k, const void *v)
{
	Guard g;
	KeyTable &t = keys[rank()];
	if (fault(F_SETSPECIFIC)) return ENOMEM;
	if (k >= t.live.size() || !t.live[k]) return EINVAL;
	if (cur->tls.size() <= k) cur->tls.resize(k + 1);
	cur->tls[k] = (void *)v; return 0;
}

// std::thread
unsigned sim_thread_hwc() { return platform.cpus; }
struct ThreadState { virtual ~ThreadState(); virtual void _M_run(); };
static void *runState(void *p) { ThreadState *s = (ThreadState *)p; s->_M_run(); delete s; return nullptr; }
void sim_thread_start(unsigned long *id, ThreadState **st, void (*)()) { Guard g; point(P_SYNC); ThreadState *s = *st; *st = nullptr; *id = 0x7000 + startThread(runState, s, "thread"); point(P_SYNC); }
void sim_thread_join(unsigned long *id) { Guard g; point(P_SYNC); joinThread(*id, nullptr); *id = 0; }
void sim_thread_detach(unsigned long *id) { Guard g; Fiber *f = threadOf(*id); if (f) f->detached = true; *id = 0; }

int sim_sched_getcpu() { Guard g; if (cur) point(P_SYNC); if (fault(F_GETCPU)) { errno = ENOSYS; return -1; } return cur ? cur->cpu : 0; }
int sim_getcpu(unsigned *c, unsigned *n) { int x = sim_sched_getcpu(); if (x < 0) return -1; if (c) *c = x; if (n) *n = platform.cpuNode[x]; return 0; }
int sim_numa_node_of_cpu(int c) { Guard g; if (fault(F_NODEOFCPU)) { errno = EINVAL; return -1; } if (c < 0 || c >= (int)platform.cpuNode.size()) { errno = EINVAL; return -1; } return platform.cpuNode[c]; }
int sim_numa_available() { return 0; }
int sim_numa_max_node() { int m = 0; for (int n : platform.cpuNode) m = n > m ? n : m; return m; }
int sim_numa_num_configured_nodes() { return sim_numa_max_node() + 1; }
int sim_numa_num_configured_cpus() { return platform.cpus; }
int sim_numa_preferred() { return 0; }

long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return platform.cpus; return sysconf(n); }
int sim_sched_yield() { Guard g; pollFailed("yield"); return 0; }
int sim_usleep(unsigned us) { Guard g; sleepFor((uint64_t)us * 1000); return 0; }
unsigned sim_sleep(unsigned s) { Guard g; sleepFor((uint64_t)s * 1000000000ull); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { Guard g; sleepFor((uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { Guard g; sleepFor(1000); (void)t; return 0; }
int sim_clock_gettime(clockid_t, struct timespec *t) { uint64_t ns = simClock * 100; t->tv_sec = ns / 1000000000ull; t->tv_nsec = ns % 1000000000ull; return 0; }
int sim_gettimeofday(struct timeval *t, void *) { uint64_t us = simClock / 10; t->tv_sec = us / 1000000; t->tv_usec = us % 1000000; return 0; }
time_t sim_time(time_t *t) { time_t x = simClock / 10000000; if (t) *t = x; return x; }
int64_t sim_chrono_now() { return simClock * 100; }
int64_t sim_chrono_now2() { return simClock * 100; }
int sim_rand() { Guard g; return cur ? decide(K_RAND, 64, cfg.pRand) : 0; }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}
int sim_rand_r(unsigned *) { return sim_rand(); }
long sim_random() { return sim_rand(); }
long sim_lrand48() { return sim_rand(); }
double sim_drand48() { return sim_rand() / 64.0; }
unsigned sim_random_device(void *) { return sim_rand(); }

void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { if (cur) cur->depth++; const char *b = strrchr(f, '/'); violation("assertion", fmt("assertion '%s' failed (%s:%u)", e, b ? b + 1 : f, l)); }
void sim_abort() { violation("abort", "abort() called"); }
void sim__exit(int c) { abortRun(fmt("_exit(%d)", c)); }
void sim_exit(int c) { abortRun(fmt("exit(%d)", c)); }
void sim_terminate() { violation("abort", "std::terminate called"); }
void sim_fatal(const char *m) { abortRun(std::string("logError: ") + m); }

struct EmuTls { size_t size, align; uintptr_t idx; void *templ; };
void *sim___emutls_get_address(EmuTls *e)
{
	Guard g;
	static std::map<std::pair<int, void *>, void *> st;
	void *&p = cur ? cur->emutls[e] : st[{loadingRank, e}];
	if (!p) { p = malloc(e->size); if (e->templ) memcpy(p, e->templ, e->size); else memset(p, 0, e->size); }
	return p;
}
}
ThreadState::~ThreadState() {}
void ThreadState::_M_run() {}
