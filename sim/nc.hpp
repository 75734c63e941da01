// Simulated netCDF library
#pragma once
#include "core.hpp"
namespace sim {
struct NcVar { std::string name; int type; size_t esize; std::vector<int> dims; std::vector<char> data;
	std::function<void(size_t, char *)> gen;               // large files: contents computed when needed
	mutable std::map<size_t, std::vector<char>> made;
	const char *at(size_t cell) const
	{
		if (!gen) return data.data() + cell * esize;
		auto &m = made[cell];
		if (m.empty()) { m.assign(esize, 0); gen(cell, m.data()); }
		return m.data();
	}
};
struct NcFile { std::string name; std::vector<std::pair<std::string, size_t>> dims; std::vector<NcVar> vars; std::map<int, size_t> userTypes; };
struct NcLedger { // per rank and file
	uint64_t opens = 0, closes = 0, loads = 0, errors = 0;
	std::vector<int8_t> node;          // NUMA node of the thread that read it last
	std::vector<uint32_t> cells;       // how often each cell of variable dataVar was read
};
extern std::vector<NcFile *> ncFiles;
NcFile *ncFind(const std::string &name);
NcLedger &ncLedger(int rank, const std::string &file);
int ncOpen(int rank);              // number of open handles
size_t ncTypeSize(int type);
double ncValue(int type, const void *p);
void ncReset();
}
