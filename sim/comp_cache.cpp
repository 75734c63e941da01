// C08: cache::CacheManager with several threads and several managers
#include "comp.hpp"
#include "cache/cachemanager.h"
namespace {
struct M { cache::CacheManager *m; unsigned char *mem; unsigned long slots, size; std::vector<int> holder; std::vector<long> content; long served = 0; };
std::vector<M> ms;

unsigned char pat(long id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 5); }
void take(M &m, unsigned long o, const unsigned char *data, const char *what)
{
	if (o >= m.slots) violation("cache-slot", fmt("%s returns slot %lu of a cache with %lu slots", what, o, m.slots));
	if (data != m.mem + o * m.size) violation("cache-slot", fmt("%s returns memory that does not belong to slot %lu", what, o));
	if (m.holder[o] >= 0) violation("cache-slot", fmt("%s gives slot %lu to a second holder (thread %d still holds it)", what, o, m.holder[o]));
	m.holder[o] = cur->id;
}
void valid(M &m, unsigned long o, unsigned char *data, long id, const char *what)
{
	if (m.content[o] != id) violation("cache-content", fmt("%s reports block %ld in slot %lu, which was filled for block %ld", what, id, o, m.content[o]));
	for (size_t i = 0; i < m.size; i++) { unsigned char x; { Call c; x = data[i]; } if (x != pat(id, i)) violation("cache-content", fmt("%s exposes block %ld in slot %lu with wrong data in byte %zu", what, id, o, i)); }
}
void drop(M &m, unsigned long o) { m.holder[o] = -1; Call c; m.m->unlock(o); }

void doGet(M &m, long id, M *other, int hold)
{
	unsigned long o = 12345; unsigned char *d = nullptr; long old;
	{ Call c; old = m.m->get(id, o, d); }
	take(m, o, d, "get");
	m.served++;
	if (old == id) { valid(m, o, d, id, "get"); probe("cache_hits"); }
	else {
		if (old != m.content[o]) violation("cache-content", fmt("get displaces block %ld from slot %lu but reports block %ld", m.content[o], o, old));
		bool copied = false;
		m.content[o] = -2; // being filled
		if (other) {
			unsigned long oo = 54321; const unsigned char *od = nullptr; bool ok;
			{ Call c; ok = other->m->tryGet(id, oo, od); }
			if (ok) {
				take(*other, oo, od, "tryGet");
				valid(*other, oo, (unsigned char *)od, id, "tryGet");
				for (size_t i = 0; i < m.size; i++) { Call c; d[i] = od[i]; }
				drop(*other, oo); copied = true; probe("cache_copies");
			}
		}
		if (!copied) for (size_t i = 0; i < m.size; i++) { Call c; d[i] = pat(id, i); }
		m.content[o] = id;
		if (old >= 0) probe("cache_evictions");
	}
	for (int i = 0; i < hold; i++) { point(P_SYNC); }
	valid(m, o, d, id, "a held slot");
	drop(m, o);
}
void doTry(M &m, long id)
{
	unsigned long o = 12345; const unsigned char *d = nullptr; bool ok;
	{ Call c; ok = m.m->tryGet(id, o, d); }
	if (!ok) { probe("cache_probe_failed"); return; }
	take(m, o, d, "tryGet");
	valid(m, o, (unsigned char *)d, id, "tryGet");
	probe("cache_probe_ok");
	drop(m, o);
}
void run(int t)
{
	for (auto &w : opsOf(t)) {
		M &m = ms[w.i(1) % ms.size()];
		cur->op = w.s(0) + " " + w.s(1) + " " + w.s(2);
		if (w.s(0) == "get") doGet(m, w.i(2), w.s(3) == "copy" ? &ms[(w.i(1) + 1) % ms.size()] : nullptr, w.kv("hold", 0));
		else if (w.s(0) == "try") doTry(m, w.i(2));
		cur->op.clear();
	}
	hbarrier("end", compThreads);
	if (t) return;
	// nobody holds anything: every filled block is found in exactly one slot
	for (auto &m : ms) {
		std::set<long> seen;
		for (unsigned long s = 0; s < m.slots; s++) {
			long id = m.content[s];
			if (m.holder[s] >= 0) violation("cache-slot", "a slot is still held");
			if (id < 0) continue;
			if (!seen.insert(id).second) violation("cache-content", fmt("block %ld is in two slots", id));
			unsigned long o = 12345; const unsigned char *d = nullptr; bool ok;
			{ Call c; ok = m.m->tryGet(id, o, d); }
			if (!ok) violation("cache-content", fmt("block %ld was filled and not displaced, but is not found", id));
			take(m, o, d, "tryGet");
			valid(m, o, (unsigned char *)d, id, "tryGet");
			if (o != s) violation("cache-slot", fmt("block %ld was filled in slot %lu but is found in slot %lu", id, s, o));
			drop(m, o);
			probe("cache_final_checks");
		}
		for (auto &l : all) if (l.s(0) == "op" && !seen.count(l.i(5))) {
			unsigned long o; const unsigned char *d; bool ok;
			{ Call c; ok = m.m->tryGet(l.i(5), o, d); }
			if (ok) violation("cache-content", fmt("block %ld is reported as present although no slot contains it", l.i(5)));
		}
		Call c; delete m.m; delete[] m.mem;
	}
}
}
extern "C" void comp_start(const CompScenario *c)
{
	parseAll(c);
	for (auto &l : all) if (l.s(0) == "manager") {
		M m; m.slots = l.kv("slots", 2); m.size = l.kv("size", 4); long spread = l.kv("spread", -1);
		m.holder.assign(m.slots, -1); m.content.assign(m.slots, -1);
		m.m = nullptr; m.mem = nullptr; (void)spread;
		ms.push_back(m);
	}
	for (int t = 0; t < compThreads; t++) start(t, [t] {
		if (t == 0) {
			size_t k = 0;
			for (auto &l : all) if (l.s(0) == "manager") { M &m = ms[k++]; Call c; m.m = new cache::CacheManager(); m.mem = new unsigned char[m.slots * m.size]; m.m->init(m.mem, m.slots, m.size, l.kv("spread", -1)); }
		}
		hbarrier("start", compThreads);
		run(t);
	});
}
