// Simulated MPI library
#pragma once
#include "core.hpp"
namespace sim {
struct MpiLive { int comms = 0, wins = 0, types = 0, groups = 0, requests = 0; };
MpiLive mpiLive(int rank);
void mpiInit(int ranks, const std::vector<std::string> &processorNames);
void mpiFinish(bool strict);                 // checks after a run: nothing is left over
void *mpiMakeComm(const std::vector<int> &members);   // a communicator of the application (one core for all ranks)
void *mpiCommHandle(void *core, int rank);   // the handle of one rank (null if not a member)
bool mpiDrained();                           // no message is under way or unreceived
extern bool mpiSerial;                       // the build serialises MPI calls
extern int mpiThreadLevel;
struct MpiStats { std::map<size_t, uint64_t> gets, recvs; };
extern std::map<int, MpiStats> mpiStats;     // per rank: transfers by size
const std::string &mpiProcName(int rank);
}
