// C09: threads::Sync barriers and broadcasts
#include "comp.hpp"
#include "threads/sync.h"
namespace {
struct Round { int entered = 0, left = 0, inside = 0, lastLeft = 0; };
// independent barriers, each used by a team of threads
struct Team { threads::Sync *sy; std::vector<Round> rounds; };
std::vector<Team> teams;
struct Val { long a, b, c; };

void run(int thread)
{
	int nt = teams.size(), t = thread / nt, n = (compThreads - thread % nt + nt - 1) / nt, k = 0;
	threads::Sync *sy = teams[thread % nt].sy; std::vector<Round> &rounds = teams[thread % nt].rounds;
	for (auto &w : opsOf(thread)) {
		Round &r = rounds[k];
		cur->op = fmt("round %d: ", k) + w.s(0);
		std::string kind = w.s(0); bool ok = true;
		if (w.i(1)) for (int i = 0; i < w.i(1 + t % 3); i++) point(P_SYNC); // arrive at different times
		r.entered++;
		bool last = false;
		if (kind == "barrier") { Call c; ok = sy->barrier(n); }
		else if (kind == "phases") { // start, exclusive part, wait (some threads last), end
			std::string lasts = w.ks("last", "");
			int nLast = 0;
			for (auto &x : split(lasts, ',')) { if (atoi(x.c_str()) == t) last = true; nLast += atoi(x.c_str()) < n; }
			{ Call c; ok = sy->startBarrier(); }
			if (ok) {
				unsigned wt; { Call c; wt = sy->waiting(); }
				if (++r.inside != 1) violation("barrier", fmt("%d threads are between the start and the wait of barrier %d at the same time", r.inside, k));
				point(P_SYNC); point(P_SYNC);
				if (r.inside != 1) violation("barrier", fmt("another thread enters the exclusive part of barrier %d", k));
				r.inside--;
				if (wt >= (unsigned)n) violation("barrier", fmt("%u of %d threads wait in barrier %d although this thread does not", wt, n, k));
				{ Call c; ok = sy->waitBarrier(n, last); }
				if (ok) {
					// code before endBarrier() is executed by one thread at a time
					if (++r.inside != 1) violation("barrier", fmt("%d threads are between the wait and the end of barrier %d at the same time", r.inside, k));
					point(P_SYNC);
					r.inside--;
					if (last && r.lastLeft < n - nLast) violation("barrier", fmt("a last thread leaves barrier %d before the other threads", k));
					if (!last) r.lastLeft++;
					{ Call c; ok = sy->endBarrier(); }
				}
			}
		}
		else { // broadcast of a value, a pointer or a structure
			int root = w.kv("root", 0) % n; long want = 1000 * (k + 1) + root + 100 * (thread % nt);
			if (kind == "bclong") { long *v; { Call c; v = new long(t == root ? want : -t - 1); } { Call c; ok = sy->broadcast(*v, n, t, root); } long got; { Call c; got = *v; *v = -7; delete v; } if (ok && got != want) violation("broadcast", fmt("thread %d receives %ld instead of %ld in round %d", t, got, want, k)); }
			else { Val v = {-1, -2, -3}; if (t == root) v = Val{want, want + 1, want + 2}; { Call c; ok = sy->broadcast(v, n, t, root); } if (ok && (v.a != want || v.b != want + 1 || v.c != want + 2)) violation("broadcast", fmt("thread %d receives %ld,%ld,%ld instead of %ld.. in round %d", t, v.a, v.b, v.c, want, k)); v.a = v.b = v.c = -9; }
			probe("broadcasts");
		}
		if (!ok) violation("barrier", fmt("%s of round %d fails", kind.c_str(), k));
		if (r.entered != n) violation("barrier", fmt("thread %d leaves round %d although only %d of %d threads have entered it", t, k, r.entered, n));
		r.left++;
		probe("barrier_passes");
		cur->op.clear();
		k++;
	}
	hbarrier("end", compThreads);
	for (auto &r : rounds) if (r.left != n) violation("barrier", "not all threads left a barrier");
	if (t == 0) { Call c; delete sy; }
}
}
extern "C" void comp_start(const CompScenario *c)
{
	parseAll(c);
	int nt = std::max(1, std::min(compThreads, (int)setup("objects").i(1)));
	teams.clear(); teams.resize(nt); for (auto &x : teams) x.rounds.resize(opsOf(0).size());
	for (int t = 0; t < compThreads; t++) start(t, [t] {
		if (t < (int)teams.size()) { Call c; teams[t].sy = new threads::Sync(); }
		hbarrier("start", compThreads);
		run(t);
	});
}
