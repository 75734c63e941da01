// Deterministic simulator core: fibers, seeded scheduler, decisions, traces.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng {
	uint64_t s = 1;
	void seed(uint64_t x) { s = x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); next(); }
	uint64_t next() { // splitmix64
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	int range(int a, int b) { return a + (int)below(b - a + 1); }
};

// Kinds of recorded decisions. The default of every decision is 0.
enum Kind {
	K_SCHED = 0,   // preempt: which entity runs next (index: fiber step)
	K_BLOCK,       // after blocking, polling or finishing: which entity runs next
	K_NET,         // which message the network delivers
	K_EAGER,       // 1: the send waits for its receive (rendezvous)
	K_SPUR,        // 1: this condition wait wakes up spuriously
	K_RAND,        // result of rand()
	K_RMA,         // timing and order of one-sided operations
	K_LAZY,        // 1: the window lock is requested lazily
	K_WAKE,        // which waiter a signal wakes
	K_NUM
};

enum FaultKind { F_NC_OPEN = 0, F_NC_INQ, F_NC_GET, F_KEY_CREATE, F_THREAD_CREATE, F_MPI_ALLOC, F_WIN_CREATE,
	F_COMM_DUP, F_TYPE, F_GETCPU, F_NODEOFCPU, F_SETSPECIFIC, F_PLANNED_NUM,
	// the following are decided by the seeded decisions above, counted here
	F_SPURIOUS = F_PLANNED_NUM, F_RENDEZVOUS, F_STALL, F_DELAY, F_REORDER, F_LAZYLOCK, F_RMA_REORDER, F_RMA_DELAY, F_FILL, F_NUM };
extern const char *faultName[F_NUM];

// A fiber, or (net) an actor without stack: the network and the one-sided progress engine
struct Fiber {
	int id = -1;
	int rank = 0;
	int thread = -1;            // application thread number or -1
	std::string name;
	bool daemon = false;        // does not have to finish
	bool net = false;
	std::function<bool()> can;  // net: is there something to do?
	std::function<void()> act;  // net: do one thing
	void *sp = nullptr;
	char *stack = nullptr;
	size_t stackSize = 0;
	std::function<void()> fn;
	void *(*cfn)(void *) = nullptr;
	void *carg = nullptr;
	void *cret = nullptr;
	bool done = false, joined = false, detached = false;
	bool blocked = false;
	std::function<bool()> pred;
	const char *what = "";
	uint64_t deadline = 0;      // !=0: pred may become true by time
	uint64_t step = 0;
	int depth = 1;              // >0: simulator/harness code, 0: code under test
	void *eh[2] = {nullptr, nullptr};
	void *once[2] = {nullptr, nullptr};
	int cpu = 0;
	uint64_t prio = 0;
	uint32_t kidx[K_NUM] = {0};
	std::vector<void *> tls;
	std::map<void *, void *> emutls;
	const char *inMpi = nullptr, *inNc = nullptr;
	std::set<int> affinity; bool pinned = false;
	uint32_t streak = 0;
	int progLine = -1;          // position in the scenario program
	std::string op;             // current operation (for reports)
	unsigned tag = 0;           // marks allocations of this fiber (grid number)
};

struct Dev { int32_t fiber; int32_t kind; uint64_t idx; int64_t val; };

struct RunCfg {
	int mode = 0;              // 0 random walk, 1 PCT, 2 synchronisation points only, 3 run to block
	double pMem = 0.02, pSync = 0.3;
	int pctDepth = 3; uint64_t pctLen = 20000;
	int stallFiber = -1; uint64_t stallFrom = 0, stallLen = 0;
	double netWeight = 1.0;
	double pEager = 0.5, pSpur = 0.0, pLazy = 0.5, pRma = 0.5, pNet = 0.7, pRand = 0.7;
	uint64_t fairAfter = 1500000, maxSteps = 4000000;
	uint8_t fill = 0xCB;
};

struct Violation { std::string cls, msg; };

extern Fiber *cur;
extern std::vector<Fiber *> fibers;
extern Rng rng;
extern RunCfg cfg;
extern bool replaying;
extern uint64_t totalSteps, totalSwitches, simClock;
extern bool fairMode;
extern int numRanks;
extern bool verbose;
extern int loadingRank;    // >= 0: a library copy is being loaded or static code of it runs

// Shared with the parent process
struct Shared {
	int violated, aborted, finished;
	char cls[64];
	char msg[3000];
	uint64_t steps, switches, schedHash, eventHash, clock;
	uint64_t faults[F_NUM];
	uint64_t nDevs;
	uint64_t nProbes;
	struct P { char name[48]; uint64_t n; } probes[128];
	char log[1 << 16]; uint32_t logLen;
	Dev devs[1 << 21];
};
extern Shared *shr;

inline int rank() { return cur ? cur->rank : loadingRank; }
void probe(const char *name, uint64_t n = 1);
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

enum PointKind { P_MEM, P_SYNC };
void point(PointKind k);
void block(const std::function<bool()> &pred, const char *what);
void blockUntil(const std::function<bool()> &pred, uint64_t deadline, const char *what);
void pollFailed(const char *what);
Fiber *spawn(int rank, const std::string &name, std::function<void()> fn);
Fiber *addActor(int rank, const std::string &name, std::function<bool()> can, std::function<void()> act);
uint32_t decide(Kind k, uint32_t n, double pDev); // 0 is the default
bool fault(FaultKind f);
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void abortRun(const std::string &why); // fail-stop (logError) of a rank: the job ends
extern std::function<void(const std::string &)> onAbort;
void resetRun();
void runAll();
void setReplay(const std::vector<Dev> &d);
std::string fiberStates();
void hashEvent(uint64_t x);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Planned faults: fire at the nth opportunity of the kind (1-based, counted per rank), for cnt times.
// rank < 0: on every rank; thread < 0: any thread
struct FaultPlan { int kind; int nth, cnt, rank, thread; std::map<int, int> seen; };
extern std::vector<FaultPlan> faultPlan;
extern bool faultsArmed;

struct Guard { // simulator code running on behalf of the code under test
	Guard() { if (cur) cur->depth++; }
	~Guard() { if (cur) cur->depth--; }
};
struct Call { // entering the code under test
	int d;
	Call() { d = cur->depth; cur->depth = 0; }
	~Call() { cur->depth = d; }
};

// memory (mem.cpp)
void *arenaAlloc(size_t n, const char *kind, size_t align = 16);
bool arenaOwns(const void *p);
void arenaFree(void *p, const char *kind);
size_t arenaSize(void *p);
void checkRange(const void *p, size_t n, bool write, const char *who);
struct AllocInfo { char *p; size_t size; int rank; const char *kind; bool live; unsigned tag; };
extern std::vector<AllocInfo> allocs;
extern bool memAnyRank;     // MPI moves data of other ranks
void arenaInit();
void yieldCopy(void *d, const void *s, size_t n, const char *who);   // copies in pieces with scheduling points
void memResult(const void *p, size_t n);
char *fiberStack(int id, size_t &size);

} // namespace sim
