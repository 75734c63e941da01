// C10: threads::Once
#include "comp.hpp"
#include "threads/once.h"
#include <algorithm>
namespace {
struct Obj {
	threads::Once once; long a, b, c; volatile long steps;
	Obj() : a(0), b(0), c(0), steps(0) {}
	void init();
};
std::vector<Obj *> objs;
std::vector<int> started, finished;
void Obj::init()
{
	size_t k; { Guard g; k = std::find(objs.begin(), objs.end(), this) - objs.begin(); if (started[k]++) violation("once", fmt("initialisation %zu is executed again", k)); }
	a = 11;
	for (int i = 0; i < 5; i++) steps = steps + 1;
	b = a + 11;
	{ Guard g; for (int i = 0; i < 4; i++) point(P_SYNC); }
	c = b + 11;
	{ Guard g; finished[k]++; }
}
void run(int t)
{
	for (auto &w : opsOf(t)) {
		size_t k = w.i(1) % objs.size(); Obj &o = *objs[k];
		cur->op = fmt("exec %zu", k);
		{ Call c; o.once.saveExec(o, &Obj::init); }
		long a, b, c, s; { Call x; a = o.a; b = o.b; c = o.c; s = o.steps; }
		if (!finished[k]) violation("once", fmt("thread %d continues before initialisation %zu has completed", t, k));
		if (a != 11 || b != 22 || c != 33 || s != 5) violation("once", fmt("thread %d sees the state of initialisation %zu partially (%ld %ld %ld %ld)", t, k, a, b, c, s));
		probe("once_calls");
		cur->op.clear();
	}
	hbarrier("end", compThreads);
	if (t == 0) {
		for (size_t k = 0; k < objs.size(); k++) {
			bool used = false; for (auto &l : all) if (l.s(0) == "op" && l.i(4) % (long)objs.size() == (long)k) used = true;
			if (used != (started[k] == 1)) violation("once", fmt("initialisation %zu was executed %d times", k, started[k]));
			Call c; delete objs[k];
		}
	}
}
}
extern "C" void comp_start(const CompScenario *c)
{
	parseAll(c);
	int n = setup("objects").i(1); if (n < 1) n = 1;
	started.assign(n, 0); finished.assign(n, 0);
	for (int t = 0; t < compThreads; t++) start(t, [t, n] {
		if (t == 0) for (int i = 0; i < n; i++) { Obj *o; { Call c; o = new Obj(); } objs.push_back(o); }
		hbarrier("start", compThreads);
		run(t);
	});
}
