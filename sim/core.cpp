#include <execinfo.h>
#include "core.hpp"
#include <cstdarg>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>
#include <cxxabi.h>

namespace std { extern __thread void *__once_callable; extern __thread void (*__once_call)(); }

namespace sim {

const char *faultName[F_NUM] = {"nc_open_error", "nc_inquire_error", "nc_read_error", "key_create_error", "thread_create_error",
	"mpi_alloc_error", "win_create_error", "comm_dup_error", "mpi_type_error", "getcpu_error", "numa_node_error", "setspecific_error",
	"spurious_wakeup", "rendezvous_send", "thread_stall", "message_delay", "message_reorder", "lazy_window_lock", "rma_reorder", "rma_delay", "memory_fill_pattern"};

Fiber *cur = nullptr;
std::vector<Fiber *> fibers;
Rng rng;
RunCfg cfg;
bool replaying = false;
uint64_t totalSteps, totalSwitches, simClock;
bool fairMode = false;
int numRanks = 1;
bool verbose = false;
int loadingRank = -1;
Shared *shr = nullptr;
std::function<void(const std::string &)> onAbort;
std::vector<FaultPlan> faultPlan;
bool faultsArmed = true;

static std::vector<uint64_t> pctPoints;
static uint64_t prioFloor;
static bool runOver;
static Fiber mainFiber;
static std::vector<int> runnable;
static uint64_t idlePolls;

struct DevKey { int fiber, kind; uint64_t idx; bool operator==(const DevKey &o) const { return fiber == o.fiber && kind == o.kind && idx == o.idx; } };
struct DevHash { size_t operator()(const DevKey &k) const { return (k.idx * 1000003u + k.fiber) * 31u + k.kind; } };
static std::unordered_map<DevKey, int64_t, DevHash> replayDevs;

std::string fmt(const char *f, ...)
{
	char buf[2048];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	return buf;
}

void trace(const char *f, ...)
{
	if (!verbose) return;
	char buf[1024];
	va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	(void)n;
	fprintf(stderr, "%8lu %-10s %s\n", (unsigned long)totalSteps, cur ? cur->name.c_str() : "-", buf);
}

void probe(const char *name, uint64_t n)
{
	for (uint64_t i = 0; i < shr->nProbes; i++)
		if (!strcmp(shr->probes[i].name, name)) { shr->probes[i].n += n; return; }
	if (shr->nProbes < 128) { strncpy(shr->probes[shr->nProbes].name, name, 47); shr->probes[shr->nProbes++].n = n; }
}

void hashEvent(uint64_t x)
{
	uint64_t h = shr->eventHash ^ x;
	h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; shr->eventHash = h;
}
static void hashSched(uint64_t x)
{
	uint64_t h = shr->schedHash ^ x;
	h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 31; shr->schedHash = h;
}

static void recordDev(int fiber, int kind, uint64_t idx, int64_t val)
{
	if (shr->nDevs < sizeof(shr->devs) / sizeof(Dev)) shr->devs[shr->nDevs++] = Dev{fiber, kind, idx, val};
}

static void flushStats()
{
	shr->steps = totalSteps; shr->switches = totalSwitches; shr->clock = simClock;
}

void violation(const std::string &cls, const std::string &msg)
{
	if (cur) cur->depth++;
	flushStats();
	shr->violated = 1;
	snprintf(shr->cls, sizeof shr->cls, "%s", cls.c_str());
	std::string who = cur ? " [on " + cur->name + (cur->op.empty() ? "" : ", " + cur->op) + "]" : "";
	std::string m = msg + who;
	snprintf(shr->msg, sizeof shr->msg, "%s", m.c_str());
	if (verbose) {
		fprintf(stderr, "VIOLATION %s: %s\n", cls.c_str(), m.c_str());
		if (getenv("SIM_BACKTRACE")) { void *b[40]; backtrace_symbols_fd(b, backtrace(b, 40), 2); }
	}
	_exit(0);
}

void abortRun(const std::string &why)
{
	if (cur) cur->depth++;
	if (onAbort) onAbort(why);
	flushStats();
	shr->aborted = 1; shr->finished = 1;
	snprintf(shr->msg, sizeof shr->msg, "%s", why.c_str());
	if (verbose) fprintf(stderr, "ABORT %s\n", why.c_str());
	_exit(0);
}

// ---- context switch -----------------------------------------------------
extern "C" void simSwitch(void **from, void *to);
asm(R"(
.text
.globl simSwitch
.type simSwitch,@function
simSwitch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size simSwitch,.-simSwitch
)");

static void enterFiber(Fiber *t)
{
	Fiber *f = cur;
	if (f == t) return;
	if (!f) f = &mainFiber;
	void **g = (void **)abi::__cxa_get_globals();
	f->eh[0] = g[0]; f->eh[1] = g[1];
	f->once[0] = std::__once_callable; f->once[1] = (void *)std::__once_call;
	g[0] = t->eh[0]; g[1] = t->eh[1];
	std::__once_callable = t->once[0]; std::__once_call = (void (*)())t->once[1];
	cur = (t == &mainFiber) ? nullptr : t;
	simSwitch(&f->sp, t->sp);
}

static int choose(Fiber *f, bool allowSelf, Kind kind, uint64_t idx, int &outDefault);

static void switchAway(Fiber *f, Kind kind, bool canContinue);

static void fiberMain()
{
	Fiber *f = cur;
	if (f->cfn) { f->depth = 0; f->cret = f->cfn(f->carg); f->depth = 1; }
	else f->fn();
	f->done = true;
	trace("fiber finished");
	switchAway(f, K_BLOCK, false);
	abort();
}

char *fiberStack(int id, size_t &size)
{
	size = 256 * 1024;
	char *base = (char *)0x200000000000ull + (size_t)id * 1024 * 1024;
	return base;
}

Fiber *spawn(int rank, const std::string &name, std::function<void()> fn)
{
	Fiber *f = new Fiber();
	f->id = fibers.size();
	f->rank = rank; f->name = name; f->fn = std::move(fn);
	size_t sz; char *st = fiberStack(f->id, sz);
	void *p = mmap(st, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	if (p != st) { fprintf(stderr, "cannot map stack\n"); abort(); }
	memset(st + sz - 48 * 1024, cfg.fill, 48 * 1024);
	f->stack = st; f->stackSize = sz;
	uint64_t *sp = (uint64_t *)(st + sz - 64);
	*--sp = 0;                      // alignment / fake return
	*--sp = (uint64_t)&fiberMain;
	for (int i = 0; i < 6; i++) *--sp = 0;
	*--sp = 0x037F00001F80ull;      // fcw, mxcsr
	f->sp = sp;
	f->prio = 1000000 + (replaying ? f->id : rng.below(1000000));
	fibers.push_back(f);
	return f;
}

Fiber *addActor(int rank, const std::string &name, std::function<bool()> can, std::function<void()> act)
{
	Fiber *f = new Fiber();
	f->id = fibers.size(); f->rank = rank; f->name = name; f->net = true; f->daemon = true;
	f->can = std::move(can); f->act = std::move(act);
	f->prio = 1000000 + (replaying ? f->id : rng.below(1000000));
	fibers.push_back(f);
	return f;
}

static bool isRunnable(Fiber *f)
{
	if (f->done) return false;
	if (f->net) return f->can();
	return !f->blocked || f->pred() || (f->deadline && simClock >= f->deadline);
}

std::string fiberStates()
{
	std::string s;
	for (Fiber *f : fibers) {
		if (f->net || f->done) continue;
		s += fmt("%s%s: %s%s%s", s.empty() ? "" : "; ", f->name.c_str(), f->blocked ? "waits for " : "runs", f->blocked ? f->what : "",
			f->op.empty() ? "" : (" in " + f->op).c_str());
	}
	return s;
}

// Select the next entity; -1: none
static int choose(Fiber *f, bool allowSelf, Kind kind, uint64_t idx, int &def)
{
	runnable.clear();
	int n = fibers.size(), self = f ? f->id : -1;
	for (int i = 1; i <= n; i++) {
		int j = (self + i) % n;
		if (j == self && !allowSelf) continue;
		if (isRunnable(fibers[j])) runnable.push_back(j);
	}
	def = runnable.empty() ? -1 : runnable[0];
	if (runnable.empty()) return -1;
	if (replaying) {
		auto it = replayDevs.find(DevKey{self, kind, idx});
		if (it != replayDevs.end())
			for (int r : runnable) if (r == it->second - 1) return r;
		return def;
	}
	if (fairMode) return def;
	int pick;
	if (cfg.stallFiber >= 0 && runnable.size() > 1 && totalSteps >= cfg.stallFrom && totalSteps < cfg.stallFrom + cfg.stallLen) {
		for (size_t i = 0; i < runnable.size(); i++)
			if (runnable[i] == cfg.stallFiber) { runnable.erase(runnable.begin() + i); shr->faults[F_STALL]++; break; }
	}
	if (cfg.mode == 1) {
		pick = runnable[0];
		for (int r : runnable) if (fibers[r]->prio > fibers[pick]->prio) pick = r;
	} else {
		double wf = 0;
		for (int r : runnable) wf += fibers[r]->net ? cfg.netWeight : 1.0;
		double x = rng.unit() * wf; pick = runnable.back();
		for (int r : runnable) { x -= fibers[r]->net ? cfg.netWeight : 1.0; if (x < 0) { pick = r; break; } }
		if (!fibers[pick]->net) for (int r : runnable) if (fibers[r]->net) { shr->faults[F_DELAY]++; break; }
	}
	return pick;
}

static void checkLimits()
{
	if (totalSteps >= cfg.fairAfter && !fairMode) { fairMode = true; trace("fair phase starts"); }
	if (totalSteps >= cfg.maxSteps)
		violation("no-progress", "no completion within the step bound although the schedule has been fair and fault-free: " + fiberStates());
}

static void runActor(Fiber *a)
{
	Fiber *save = cur;
	if (save) save->sp = __builtin_frame_address(0); // what lies above is live
	cur = a;
	a->step++; totalSteps++; simClock++;
	hashSched((uint64_t)a->id << 32 | 0xAAAA);
	a->act();
	cur = save;
	idlePolls = 0;
	checkLimits();
}

static bool allDone()
{
	for (Fiber *f : fibers) if (!f->daemon && !f->done) return false;
	return true;
}

// leave fiber f (blocked, finished or polling)
static void switchAway(Fiber *f, Kind kind, bool canContinue)
{
	for (;;) {
		if (f->done && allDone()) { runOver = true; enterFiber(&mainFiber); abort(); }
		uint64_t idx = f->kidx[kind]++;
		int def;
		int t = choose(f, !f->done && !canContinue, kind, idx, def);
		if (t < 0) {
			if (canContinue) { // polling and nobody else can do anything
				if (++idlePolls > 2000)
					violation("deadlock", "a thread polls for something that can never happen: " + fiberStates());
				totalSteps++; simClock += 50;
				checkLimits();
				return;
			}
			// advance time?
			uint64_t best = 0;
			for (Fiber *g : fibers) if (!g->done && g->blocked && g->deadline && (!best || g->deadline < best)) best = g->deadline;
			if (best) { simClock = std::max(simClock, best); continue; }
			violation("deadlock", "no thread can run: " + fiberStates());
		}
		if (t != def) recordDev(f->id, kind, idx, t + 1);
		if (fibers[t]->net) { runActor(fibers[t]); if (canContinue) return; /* the poll may now succeed */ continue; }
		idlePolls = 0;
		if (t == f->id) return;
		totalSwitches++;
		hashSched((uint64_t)f->id << 48 ^ (uint64_t)t << 40 ^ f->step);
		f->streak = 0;
		enterFiber(fibers[t]);
		return;
	}
}

void point(PointKind k)
{
	Fiber *f = cur;
	if (!f || f->net) return;
	totalSteps++; f->step++; simClock++;
	if (totalSteps >= cfg.fairAfter || totalSteps >= cfg.maxSteps) checkLimits();
	f->streak++;
	int t = -1;
	if (fairMode || f->streak > 20000) {
		if (f->streak < 64) return;
		f->streak = 0;
		if (cfg.mode == 1 && !replaying) f->prio = prioFloor--;
		f->depth++;
		for (;;) {
			uint64_t idx = f->kidx[K_BLOCK]++;
			int def;
			t = choose(f, false, K_BLOCK, idx, def);
			if (t < 0) { f->depth--; return; }
			if (t != def) recordDev(f->id, K_BLOCK, idx, t + 1);
			if (!fibers[t]->net) break;
			runActor(fibers[t]);
			if (fairMode) continue;
			f->depth--; return;
		}
		f->depth--;
	} else if (replaying) {
		auto it = replayDevs.find(DevKey{f->id, K_SCHED, f->step});
		if (it == replayDevs.end()) return;
		t = (int)it->second - 1;
		if (t < 0 || t >= (int)fibers.size() || t == f->id) return;
		f->depth++;
		bool ok = isRunnable(fibers[t]);
		f->depth--;
		if (!ok) return;
	} else {
		bool sw = false;
		switch (cfg.mode) {
		case 0: sw = rng.chance(k == P_MEM ? cfg.pMem : cfg.pSync); break;
		case 1:
			if (!pctPoints.empty() && totalSteps >= pctPoints.back()) { pctPoints.pop_back(); f->prio = pctPoints.size() + 1; sw = true; }
			else if (k == P_SYNC) sw = true;
			break;
		case 2: sw = k == P_SYNC && rng.chance(cfg.pSync); break;
		default: break;
		}
		if (!sw) return;
		f->depth++;
		int def;
		t = choose(f, cfg.mode == 1, K_SCHED, f->step, def);
		f->depth--;
		if (t < 0 || t == f->id) return;
		recordDev(f->id, K_SCHED, f->step, t + 1);
	}
	f->depth++;
	if (fibers[t]->net) { runActor(fibers[t]); f->depth--; return; }
	totalSwitches++;
	hashSched((uint64_t)f->id << 48 ^ (uint64_t)t << 40 ^ f->step);
	f->streak = 0;
	enterFiber(fibers[t]);
	f->depth--;
}

void block(const std::function<bool()> &pred, const char *what)
{
	blockUntil(pred, 0, what);
}

void blockUntil(const std::function<bool()> &pred, uint64_t deadline, const char *what)
{
	Fiber *f = cur;
	if (pred()) return;
	totalSteps++; f->step++; simClock++;
	checkLimits();
	f->pred = pred; f->what = what; f->blocked = true; f->deadline = deadline;
	switchAway(f, K_BLOCK, false);
	f->blocked = false; f->deadline = 0; f->pred = nullptr;
}

void pollFailed(const char *what)
{
	Fiber *f = cur;
	totalSteps++; f->step++; simClock++;
	checkLimits();
	if (cfg.mode == 1 && !replaying) f->prio = prioFloor--;
	f->what = what;
	switchAway(f, K_BLOCK, true);
}

uint32_t decide(Kind k, uint32_t n, double pDev)
{
	Fiber *f = cur;
	uint64_t idx = f->kidx[k]++;
	if (n <= 1) return 0;
	if (replaying) {
		auto it = replayDevs.find(DevKey{f->id, k, idx});
		if (it == replayDevs.end()) return 0;
		return (uint32_t)(it->second % n);
	}
	if (fairMode || !rng.chance(pDev)) return 0;
	uint32_t v = 1 + rng.below(n - 1);
	recordDev(f->id, k, idx, v);
	return v;
}

bool fault(FaultKind k)
{
	if (!faultsArmed) return false;
	int r = cur ? cur->rank : loadingRank;
	for (FaultPlan &p : faultPlan) {
		if (p.kind != k) continue;
		if (p.rank >= 0 && p.rank != r) continue;
		if (p.thread >= 0 && cur && p.thread != cur->thread) continue;
		int s = ++p.seen[r];
		if (s >= p.nth && s < p.nth + p.cnt) { shr->faults[k]++; trace("fault %s", faultName[k]); return true; }
	}
	return false;
}

void setReplay(const std::vector<Dev> &d)
{
	replaying = true;
	replayDevs.clear();
	for (const Dev &x : d) replayDevs[DevKey{x.fiber, x.kind, x.idx}] = x.val;
}

void resetRun()
{
	fibers.clear(); cur = nullptr;
	totalSteps = totalSwitches = simClock = 0; fairMode = false; runOver = false; idlePolls = 0;
	prioFloor = 900000;
	pctPoints.clear();
	if (!replaying && cfg.mode == 1) {
		for (int i = 0; i < cfg.pctDepth; i++) pctPoints.push_back(rng.below(cfg.pctLen));
		std::sort(pctPoints.rbegin(), pctPoints.rend());
	}
	for (auto &p : faultPlan) p.seen.clear();
	faultsArmed = true;
}

void runAll()
{
	if (allDone()) return;
	int def;
	mainFiber.id = -1;
	for (;;) {
		int t = choose(nullptr, true, K_BLOCK, 1000000, def);
		if (t < 0) violation("deadlock", "nothing can start");
		t = def;
		if (fibers[t]->net) { // start with a real fiber
			for (int r : runnable) if (!fibers[r]->net) { t = r; break; }
		}
		enterFiber(fibers[t]);
		break;
	}
	flushStats();
	shr->finished = 1;
}

} // namespace sim
