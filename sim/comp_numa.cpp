// C11: numa::Numa (registration of threads, domains, masters) and numa::NumaComm
#include "comp.hpp"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "allocator/default.h"
namespace {
struct G {
	numa::Numa *n = nullptr; numa::NumaComm *comm = nullptr; int threads = 1; bool detect = true;
	std::map<int, int> tid, dom; std::map<int, bool> master; std::map<int, int> node; // by application thread
	std::map<int, int> err; std::map<int, numa::NumaComm *> comms; std::map<int, unsigned char *> mem; int registered = 0; long stamp = 0;
};
std::vector<G> gs;
std::set<int> openErrors;
bool anyFault() { for (int i = 0; i < F_PLANNED_NUM; i++) if (shr->faults[i]) return true; return false; }

void doRegister(int k, int t, int round)
{
	G &g = gs[k];
	bool m = (t & 1); int e, id, d;
	g.node[t] = platform.cpuNode[cur->cpu];
	{ Call c; e = g.n->registerThread(m, g.detect); }
	g.err[t] = e;
	std::string key = fmt("reg %d %d", k, round);
	hbarrier(key, g.threads);
	int fails = 0; for (auto &x : g.err) fails += x.second != 0;
	if (fails && !anyFault()) violation("numa", fmt("registering thread %d fails with %d", t, e));
	if (fails && fails != g.threads) violation("numa", fmt("registration fails on %d of %d threads", fails, g.threads));
	if (fails) { probe("registrations_failed"); hbarrier(key + "f", g.threads); if (t == 0) g.err.clear(); hbarrier(key + "g", g.threads); return; }
	unsigned total, doms;
	{ Call c; id = g.n->threadId(); d = g.n->domainId(); total = g.n->totalThreads(); doms = g.n->totalDomains(); }
	if (!g.registered) { g.tid[t] = id; g.dom[t] = d; g.master[t] = m; }
	else if (g.tid[t] != id || g.dom[t] != d || g.master[t] != m) violation("numa", fmt("thread %d was id %d domain %d master %d, registering again gives %d %d %d", t, g.tid[t], g.dom[t], (int)g.master[t], id, d, (int)m));
	hbarrier(key + "a", g.threads);
	if (t == 0) {
		std::set<int> ids, ds, nodes; std::map<int, int> masters, nodeDom; int n = g.threads;
		for (int i = 0; i < n; i++) {
			ids.insert(g.tid[i]); ds.insert(g.dom[i]); masters[g.dom[i]] += g.master[i];
			if (g.tid[i] < 0 || g.tid[i] >= n) violation("numa", fmt("thread id %d with %d threads", g.tid[i], n));
			int nd = g.detect ? g.node[i] : 0;
			if (!g.registered) { if (nodeDom.count(nd) && nodeDom[nd] != g.dom[i]) violation("numa", fmt("threads on the same NUMA node are in different domains")); nodeDom[nd] = g.dom[i]; }
		}
		if ((int)ids.size() != n) violation("numa", "two threads have the same id");
		if (!g.registered && ds.size() != nodeDom.size()) violation("numa", fmt("threads on %zu NUMA nodes are in %zu domains", nodeDom.size(), ds.size()));
		for (int d : ds) { if (d < 0 || d >= (int)ds.size()) violation("numa", fmt("domain id %d with %zu domains", d, ds.size())); if (masters[d] != 1) violation("numa", fmt("domain %d has %d masters", d, masters[d])); }
		if (doms != ds.size() || total != (unsigned)n) violation("numa", fmt("%u domains and %u threads reported instead of %zu and %d", doms, total, ds.size(), n));
		g.registered = 1;
		probe("registrations");
	}
	hbarrier(key + "b", g.threads);
}
// collective operations of the masters
void doComm(int k, int t, int round)
{
	G &g = gs[k];
	if (!g.registered) return;
	int nd = 0; for (auto &x : g.dom) nd = std::max(nd, x.second + 1);
	std::string key = fmt("comm %d %d", k, round);
	if (g.master[t]) {
		int d = g.dom[t];
		numa::NumaComm *c; { Call x; c = g.n->createComm(); }
		g.comms[d] = c;
		hbarrier(key, nd);
		for (auto &x : g.comms) if (x.second != g.comms[0] || !x.second) violation("numa", "the domains have different communicators");
		unsigned a, b, e; { Call x; a = c->totalDomains(); b = c->domainId(); e = c->threadId(); }
		if ((int)a != nd || (int)b != d || (int)e != g.tid[t]) violation("numa", fmt("communicator reports domain %u of %u thread %u instead of %d of %d thread %d", b, a, e, d, nd, g.tid[t]));
		for (int root = 0; root < nd; root++) {
			long v = d == root ? 100 + root : -d; int er;
			{ Call x; er = c->broadcast(v, root); }
			if (er || v != 100 + root) violation("numa", fmt("broadcast from domain %d gives %ld in domain %d (error %d)", root, v, d, er));
		}
		unsigned char *p = nullptr; int er; unsigned long sz = 7 + round;
		{ Call x; er = c->allocate<allocator::Default>(sz, p); }
		if (er && !anyFault()) violation("numa", "allocation fails");
		g.mem[d] = p;
		hbarrier(key + "m", nd);
		if (!er) {
			for (int i = 0; i < nd; i++) if (g.mem[i] != g.mem[0] + i * sz) violation("numa", fmt("memory of domain %d is not at its place", i));
			for (unsigned long i = 0; i < sz; i++) { Call x; p[i] = d; }
			hbarrier(key + "n", nd);
			for (unsigned long i = 0; i < sz; i++) { unsigned char z; { Call x; z = p[i]; } if (z != d) violation("numa", "the memory of two domains overlaps"); }
			hbarrier(key + "o", nd);
			if (d == 0) { Call x; c->free<allocator::Default>(p); }
		}
		hbarrier(key + "p", nd);
		if (d == 0) { Call x; delete c; }
		probe("numa_comms");
	}
	hbarrier(key + "q", g.threads);
}
void run(int t)
{
	int round = 0;
	for (auto &w : opsOf(t)) {
		int k = w.i(1) % gs.size(); G &g = gs[k]; round++;
		if (t >= g.threads) continue;
		cur->op = w.s(0) + fmt(" %d", k);
		if (w.s(0) == "reg") doRegister(k, t, round);
		else if (w.s(0) == "move") { cur->cpu = (cur->cpu + w.i(2 + t)) % platform.cpus; } // the thread runs on another CPU now
		else if (w.s(0) == "comm") doComm(k, t, round);
		else if (w.s(0) == "sync" && g.registered) {
			g.stamp += 1; int e; { Call c; e = g.n->barrier(); }
			if (e) violation("numa", "barrier fails");
			hbarrier(fmt("s %d", round), g.threads);
			long v = g.tid[t] == 0 ? round : -1; { Call c; e = g.n->broadcast(v, 0); }
			if (e || v != round) violation("numa", fmt("broadcast between the threads gives %ld instead of %d", v, round));
		}
		cur->op.clear();
	}
	hbarrier("end", compThreads);
	if (t == 0) { for (auto &g : gs) { Call c; delete g.n; } if (keys[myRank].liveCount()) violation("leak", "thread keys are not deleted"); }
}
}
extern "C" void comp_start(const CompScenario *c)
{
	parseAll(c);
	for (auto &l : all) if (l.s(0) == "numa") { G g; g.threads = std::min<long>(l.kv("threads", 1), compThreads); g.detect = l.kv("detect", 1); gs.push_back(g); }
	for (int t = 0; t < compThreads; t++) start(t, [t] {
		if (t == 0) for (auto &g : gs) { Call c; g.n = new numa::Numa(); g.n->setThreads(g.threads); }
		hbarrier("start", compThreads);
		run(t);
	});
}
