// Simulated platform: threads, locks, keys, CPUs, NUMA nodes, time, randomness
#pragma once
#include "core.hpp"
namespace sim {
struct Platform {
	int cpus = 4;
	std::vector<int> cpuNode;       // NUMA node of each CPU
};
extern Platform platform;
struct KeyTable { std::vector<int> live; std::vector<unsigned> seq; int liveCount() const { int n = 0; for (int l : live) n += l; return n; } };
extern std::map<int, KeyTable> keys;   // per rank
int liveThreads(int rank);              // threads created by the code under test and not finished
void resetPlatform();
void locksReset();
extern uint64_t lockOps;
}
