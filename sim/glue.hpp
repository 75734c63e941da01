// Interface between the simulator and one copy of the library (one per simulated process)
#pragma once
struct Glue {
	int threadsafeMpi, noMpi, noNuma, roundRobin, threadsafeCounter, maxDimensions;
	// api: 0 C++, 1 C, 2 Fortran. kind: 0 basic type, 1 array, 2 structure
	void *(*create)(int api, int kind, int type, unsigned count, unsigned *len, unsigned long *disp, int *types);
	int (*setComm)(int api, void *g, void *comm);
	int (*setThreads)(int api, void *g, unsigned n);
	void (*setParam)(int api, void *g, const char *name, const char *value, unsigned level);
	int (*open)(int api, void *g, const char *file, unsigned level);
	unsigned (*dimensions)(int api, void *g);
	double (*min)(int api, void *g, unsigned n);
	double (*max)(int api, void *g, unsigned n);
	double (*delta)(int api, void *g, unsigned n, unsigned level);
	unsigned (*varSize)(int api, void *g);
	void (*get)(int api, void *g, int as, void *buf, double *pos, unsigned level); // as: 0..4 type, 5 buffer
	unsigned long (*counter)(int api, void *g, const char *name, unsigned level);
	void (*close)(int api, void *g);
	int (*startComm)(int api, int cpu, void *comm);
	void (*stopComm)(int api);
	int (*nodeLocalRank)(int api, void *comm);
};
extern "C" const Glue *sim_glue();
