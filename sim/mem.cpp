// Memory of the code under test: arena with shadow state, access hooks (the instrumentation calls
// that the compiler inserts for -fsanitize=thread are implemented here), allocation functions.
#include "core.hpp"
#include <new>
#include <sys/mman.h>
#include <unordered_map>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <ucontext.h>
#include <execinfo.h>

namespace sim {

static char *const BASE = (char *)0x100000000000ull;
static unsigned char *const SHADOW = (unsigned char *)0x180000000000ull;
static const size_t ARENA = 1ull << 30;
static char *const STACKS = (char *)0x200000000000ull;
static const size_t STACKS_SIZE = 1024ull << 20;
static size_t used = 4096;
enum { FREED = 0xFD };

std::vector<AllocInfo> allocs;
static std::unordered_map<void *, unsigned> byPtr;
bool memAnyRank = false;

static void segv(int sig, siginfo_t *si, void *)
{
	if (!shr || !cur) { // the simulator itself
		static void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2);
		_exit(99);
	}
	if (cur) cur->depth++;
	char b[200];
	snprintf(b, sizeof b, "signal %d at address %p", sig, si->si_addr);
	violation("crash", b);
}

void arenaInit()
{
	void *a = mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	void *s = mmap(SHADOW, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (a != BASE || s != SHADOW) { fprintf(stderr, "cannot map arena\n"); exit(2); }
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

bool arenaOwns(const void *p) { return (const char *)p >= BASE && (const char *)p < BASE + ARENA; }

void *arenaAlloc(size_t n, const char *kind, size_t align)
{
	if (align < 16) align = 16;
	size_t off = (used + 32 + align - 1) / align * align;
	if (off + n + 64 > ARENA) violation("resource", fmt("the code under test allocated more than %zu bytes", ARENA));
	used = off + n;
	char *p = BASE + off;
	memset(p, cfg.fill, n);
	memset(SHADOW + off, 1 + (rank() & 63), n);
	byPtr[p] = allocs.size();
	allocs.push_back(AllocInfo{p, n, rank(), kind, true, cur ? cur->tag : 0});
	return p;
}

size_t arenaSize(void *p)
{
	auto it = byPtr.find(p);
	return it == byPtr.end() ? 0 : allocs[it->second].size;
}

void arenaFree(void *p, const char *kind)
{
	if (!p) return;
	auto it = byPtr.find(p);
	if (it == byPtr.end()) violation("bad-free", fmt("release (%s) of %p, which is not the start of an allocation", kind, p));
	AllocInfo &a = allocs[it->second];
	if (!a.live) violation("double-free", fmt("second release (%s) of a %zu byte block allocated with %s", kind, a.size, a.kind));
	if (strcmp(a.kind, kind)) violation("bad-free", fmt("block allocated with %s released with %s", a.kind, kind));
	if (a.rank != rank()) violation("bad-free", fmt("rank %d releases memory of rank %d", rank(), a.rank));
	a.live = false;
	memset(SHADOW + (a.p - BASE), FREED, a.size);
	memset(a.p, 0xDD, a.size);
}

static void badAccess(const void *p, size_t n, bool write, const char *who, unsigned char st)
{
	std::string extra;
	// find the allocation below
	for (size_t i = allocs.size(); i-- > 0;) {
		AllocInfo &a = allocs[i];
		if ((char *)p >= a.p - 32 && (char *)p <= a.p + a.size + 32) {
			extra = fmt(" (%ld bytes into a %s block of %zu bytes of rank %d%s)", (long)((char *)p - a.p), a.kind, a.size, a.rank, a.live ? "" : ", already released");
			break;
		}
	}
	if (st == FREED) violation("use-after-free", fmt("%s %s %zu bytes of released memory%s", who, write ? "writes" : "reads", n, extra.c_str()));
	if (st == 0) violation("out-of-bounds", fmt("%s %s %zu bytes outside any allocation%s", who, write ? "writes" : "reads", n, extra.c_str()));
	violation("foreign-memory", fmt("%s %s memory of rank %d%s", who, write ? "writes" : "reads", st - 1, extra.c_str()));
}

// rank checks apply only to accesses made by a rank's own code
static inline void checkArena(const void *p, size_t n, bool write, const char *who, int rk)
{
	const unsigned char *s = SHADOW + ((const char *)p - BASE);
	if ((const char *)p + n > BASE + ARENA) n = BASE + ARENA - (const char *)p;
	unsigned char want = rk < 0 ? 0 : 1 + (rk & 63);
	for (size_t i = 0; i < n; i++)
		if (rk < 0 ? s[i] == 0 || s[i] == FREED : s[i] != want) {
			badAccess((const char *)p + i, n, write, who, s[i]);
		}
}

static inline bool inStacks(const void *p) { return (const char *)p >= STACKS && (const char *)p < STACKS + STACKS_SIZE; }

static void checkStack(const void *p, size_t n, bool write, const char *who)
{
	size_t id = ((const char *)p - STACKS) >> 20;
	if (id >= fibers.size() || fibers[id]->net) violation("wild-access", fmt("%s %s invalid memory", who, write ? "writes" : "reads"));
	Fiber *g = fibers[id];
	if (g == cur) return;
	if (g->done) violation("dead-stack", fmt("%s %s the stack of %s, which has finished", who, write ? "writes" : "reads", g->name.c_str()));
	if ((const char *)p < (const char *)g->sp) violation("dead-stack", fmt("%s %s a dead stack frame of %s", who, write ? "writes" : "reads", g->name.c_str()));
	if (cur && !cur->net && !memAnyRank && g->rank != cur->rank) violation("foreign-memory", fmt("%s accesses the stack of another rank", who));
}

// Used by MPI and netCDF: memory must be valid for the executing rank (actors: any rank)
void checkRange(const void *p, size_t n, bool write, const char *who)
{
	if (!n) return;
	if (arenaOwns(p)) checkArena(p, n, write, who, cur && !cur->net && !memAnyRank ? cur->rank : -1);
	else if (inStacks(p)) { checkStack(p, n, write, who); }
	else if ((uintptr_t)p < 65536) violation("wild-access", fmt("%s %s invalid memory %p", who, write ? "writes" : "reads", p));
}

static inline void access(void *p, size_t n, bool write)
{
	Fiber *f = cur;
	if (!f || f->depth) return;
	if ((char *)p >= f->stack && (char *)p < f->stack + f->stackSize) return;
	if (arenaOwns(p)) checkArena(p, n, write, "the library", f->rank);
	else if (inStacks(p)) checkStack(p, n, write, "the library");
	point(P_MEM);
	// memory may have been released while other threads ran; the access happens now
	if (arenaOwns(p)) checkArena(p, n, write, "the library", f->rank);
}

static inline bool ownStack(const void *p) { return cur && (char *)p >= cur->stack && (char *)p < cur->stack + cur->stackSize; }

void yieldCopy(void *d, const void *s, size_t n, const char *who)
{
	char *dd = (char *)d; const char *ss = (const char *)s;
	bool quiet = ownStack(d) && ownStack(s);
	while (n) {
		size_t c = n < 16 ? n : 16;
		if (!quiet) point(P_MEM);
		checkRange(ss, c, false, who); checkRange(dd, c, true, who);
		memcpy(dd, ss, c);
		dd += c; ss += c; n -= c;
	}
}

void memResult(const void *, size_t) {}

static bool inAlloc = false;
static inline bool sut() { return cur ? cur->depth == 0 : loadingRank >= 0 && !inAlloc; }

static void *newMem(size_t n, const char *kind, size_t align = 16)
{
	if (sut()) { Guard g; inAlloc = true; void *p = arenaAlloc(n, kind, align); inAlloc = false; return p; }
	void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
	if (!p) abort();
	return p;
}
static void delMem(void *p, const char *kind)
{
	if (!p) return;
	if (arenaOwns(p)) { Guard g; inAlloc = true; arenaFree(p, kind); inAlloc = false; }
	else if (sut() && (inStacks(p))) violation("bad-free", "release of stack memory");
	else free(p);
}

} // namespace sim

using namespace sim;

void *operator new(size_t n) { return newMem(n, "new"); }
void *operator new[](size_t n) { return newMem(n, "new[]"); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return newMem(n, "new"); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return newMem(n, "new[]"); }
void *operator new(size_t n, std::align_val_t a) { return newMem(n, "new", (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return newMem(n, "new[]", (size_t)a); }
void operator delete(void *p) noexcept { delMem(p, "new"); }
void operator delete[](void *p) noexcept { delMem(p, "new[]"); }
void operator delete(void *p, size_t) noexcept { delMem(p, "new"); }
void operator delete[](void *p, size_t) noexcept { delMem(p, "new[]"); }
void operator delete(void *p, const std::nothrow_t &) noexcept { delMem(p, "new"); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { delMem(p, "new[]"); }
void operator delete(void *p, std::align_val_t) noexcept { delMem(p, "new"); }
void operator delete[](void *p, std::align_val_t) noexcept { delMem(p, "new[]"); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { delMem(p, "new"); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { delMem(p, "new[]"); }

extern "C" {
void *sim_malloc(size_t n) { return newMem(n, "malloc"); }
void *sim_calloc(size_t a, size_t b) { void *p = newMem(a * b, "malloc"); memset(p, 0, a * b); return p; }
void sim_free(void *p) { delMem(p, "malloc"); }
void *sim_realloc(void *p, size_t n)
{
	if (!p) return sim_malloc(n);
	if (!arenaOwns(p)) return realloc(p, n);
	void *q = sim_malloc(n); size_t o = arenaSize(p);
	memcpy(q, p, o < n ? o : n); sim_free(p); return q;
}
int sim_posix_memalign(void **r, size_t a, size_t n) { *r = newMem(n, "malloc", a); return 0; }
void *sim_aligned_alloc(size_t a, size_t n) { return newMem(n, "malloc", a); }
void *sim_memalign(size_t a, size_t n) { return newMem(n, "malloc", a); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)newMem(n, "malloc"); memcpy(p, s, n); return p; }

// ---- instrumentation calls ----------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
	void __tsan_read##N(void *p) { access(p, N, false); } \
	void __tsan_write##N(void *p) { access(p, N, true); } \
	void __tsan_unaligned_read##N(void *p) { access(p, N, false); } \
	void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
	void __tsan_volatile_read##N(void *p) { access(p, N, false); } \
	void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
	void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } \
	void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); } \
	void __tsan_read_write##N(void *p) { access(p, N, true); } \
	void __tsan_unaligned_read_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **p) { access(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_read_range(void *p, unsigned long n) { if (n) access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { if (n) access(p, n, true); }

void *__tsan_memcpy(void *d, const void *s, size_t n)
{
	if (!cur || cur->depth) return memcpy(d, s, n);
	Guard g; yieldCopy(d, s, n, "the library (memcpy)"); return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	if (!cur || cur->depth) return memmove(d, s, n);
	Guard g;
	if ((char *)d <= (char *)s || (char *)d >= (char *)s + n) yieldCopy(d, s, n, "the library (memmove)");
	else { point(P_MEM); checkRange(s, n, false, "the library (memmove)"); checkRange(d, n, true, "the library (memmove)"); memmove(d, s, n); }
	return d;
}
void *__tsan_memset(void *d, int c, size_t n)
{
	if (!cur || cur->depth) return memset(d, c, n);
	Guard g;
	char *p = (char *)d;
	bool quiet = ownStack(d);
	while (n) {
		size_t k = n < 64 ? n : 64;
		if (!quiet) point(P_MEM);
		checkRange(p, k, true, "the library (memset)");
		memset(p, c, k); p += k; n -= k;
	}
	return d;
}
void *sim_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }

#define ATOMIC(T, N) \
	T __tsan_atomic##N##_load(const volatile T *a, int) { access((void *)a, sizeof(T), false); return *a; } \
	void __tsan_atomic##N##_store(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); *a = v; } \
	T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = v; return o; } \
	T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
