// Common parts of the component harnesses. Compiled into one library per simulated process, together
// with all objects of the library.
#pragma once
#include "core.hpp"
#include "plat.hpp"
#include "scen.hpp"
#include <memory>

namespace sim {
// state shared by the harnesses of all simulated processes
extern std::map<std::string, std::vector<long>> compState;
extern int compThreads;
void *compComm(const std::string &name, int r);        // communicator handle of process r
std::vector<int> compMembers(const std::string &name);
int compPlace(int r, int t);
}
using namespace sim;

namespace {
struct Words {
	std::vector<std::string> w;
	std::string s(size_t n) const { return n < w.size() ? w[n] : ""; }
	long i(size_t n) const { return n < w.size() ? atol(w[n].c_str()) : 0; }
	long kv(const std::string &k, long d) const { for (auto &x : w) if (x.compare(0, k.size() + 1, k + "=") == 0) return atol(x.c_str() + k.size() + 1); return d; }
	std::string ks(const std::string &k, const std::string &d) const { for (auto &x : w) if (x.compare(0, k.size() + 1, k + "=") == 0) return x.substr(k.size() + 1); return d; }
};
int myRank, nRanks;
std::vector<Words> all;
void parseAll(const CompScenario *c)
{
	myRank = c->rank; nRanks = c->ranks; all.clear();
	for (int i = 0; i < c->nLines; i++) all.push_back(Words{split(c->lines[i])});
}
// program of a thread: lines "op R T ..." (without the first three words); -1: everybody
std::vector<Words> opsOf(int t)
{
	std::vector<Words> r;
	for (auto &l : all) if (l.s(0) == "op" && (l.i(1) == myRank || l.i(1) < 0) && (l.i(2) == t || l.i(2) < 0)) { Words x; x.w.assign(l.w.begin() + 3, l.w.end()); r.push_back(x); }
	return r;
}
Words setup(const std::string &name) { for (auto &l : all) if (l.s(0) == name) return l; return Words(); }
// barrier of the harness (not visible to the library) of n fibers; k: name
void hbarrier(const std::string &k, int n)
{
	std::vector<long> &v = compState["barrier " + k];
	v.push_back(cur->id);
	size_t round = (v.size() - 1) / n, need = (round + 1) * n;
	block([&v, need] { return v.size() >= need; }, "application barrier");
}
void start(int t, std::function<void()> fn)
{
	Fiber *f = spawn(myRank, fmt("p%d.t%d", myRank, t), fn);
	f->thread = t; f->cpu = compPlace(myRank, t);
}
}
#if defined(THREADSAFE_MPI) && !defined(ASAGI_NOMPI)
extern "C" int comp_serial() { return 1; }
#else
extern "C" int comp_serial() { return 0; }
#endif
