// Compiled with the defines of a build variant of the library
#include "asagi.h"
#include "asagi_f90.h"
#include "grid/grid.h"
#include "glue.hpp"
namespace {
int F(void *g) { return (int)(long)g; }
asagi::Grid *G(void *g) { return (asagi::Grid *)g; }
void *create(int api, int kind, int type, unsigned count, unsigned *len, unsigned long *disp, int *types)
{
	asagi::Grid::Type t[16];
	for (unsigned i = 0; i < count && i < 16; i++) t[i] = (asagi::Grid::Type)types[i];
	asagi::Grid::Type b = (asagi::Grid::Type)type;
	if (api == 2) {
		int id = kind == 0 ? f90asagi_grid_create(b) : kind == 1 ? f90asagi_grid_create_array(b) : f90asagi_grid_create_struct(count, (int *)len, (long *)disp, t);
		return (void *)(long)id;
	}
	if (api == 1) return kind == 0 ? asagi_grid_create(b) : kind == 1 ? asagi_grid_create_array(b) : asagi_grid_create_struct(count, len, disp, t);
	return kind == 0 ? asagi::Grid::create(b) : kind == 1 ? asagi::Grid::createArray(b) : asagi::Grid::createStruct(count, len, disp, t);
}
int setComm(int api, void *g, void *comm)
{
#ifndef ASAGI_NOMPI
	if (api == 2) { f90asagi_grid_set_comm(F(g), MPI_Comm_c2f((MPI_Comm)comm)); return 0; }
	if (api == 1) { asagi_grid_set_comm(G(g), (MPI_Comm)comm); return 0; }
	return G(g)->setComm((MPI_Comm)comm);
#else
	return 0;
#endif
}
int setThreads(int api, void *g, unsigned n)
{
	if (api == 2) { f90asagi_grid_set_threads(F(g), n); return 0; }
	if (api == 1) { asagi_grid_set_threads(G(g), n); return 0; }
	return G(g)->setThreads(n);
}
void setParam(int api, void *g, const char *n, const char *v, unsigned l)
{
	if (api == 2) f90asagi_grid_set_param(F(g), n, v, l);
	else if (api == 1) asagi_grid_set_param(G(g), n, v, l);
	else G(g)->setParam(n, v, l);
}
int open(int api, void *g, const char *f, unsigned l)
{
	return api == 2 ? f90asagi_grid_open(F(g), f, l) : api == 1 ? asagi_grid_open(G(g), f, l) : G(g)->open(f, l);
}
unsigned dimensions(int api, void *g) { return api == 2 ? f90asagi_grid_dimensions(F(g)) : api == 1 ? asagi_grid_dimensions(G(g)) : G(g)->getDimensions(); }
double gmin(int api, void *g, unsigned n) { return api == 2 ? f90asagi_grid_min(F(g), n) : api == 1 ? asagi_grid_min(G(g), n) : G(g)->getMin(n); }
double gmax(int api, void *g, unsigned n) { return api == 2 ? f90asagi_grid_max(F(g), n) : api == 1 ? asagi_grid_max(G(g), n) : G(g)->getMax(n); }
double delta(int api, void *g, unsigned n, unsigned l) { return api == 2 ? f90asagi_grid_delta(F(g), n, l) : api == 1 ? asagi_grid_delta(G(g), n, l) : G(g)->getDelta(n, l); }
unsigned varSize(int api, void *g) { return api == 2 ? f90asagi_grid_var_size(F(g)) : api == 1 ? asagi_grid_var_size(G(g)) : G(g)->getVarSize(); }
void get(int api, void *g, int as, void *buf, double *pos, unsigned l)
{
	switch (as) {
	case 0: { unsigned char x = api == 2 ? f90asagi_grid_get_byte(F(g), pos, l) : api == 1 ? asagi_grid_get_byte(G(g), pos, l) : G(g)->getByte(pos, l); *(unsigned char *)buf = x; break; }
	case 1: { int x = api == 2 ? f90asagi_grid_get_int(F(g), pos, l) : api == 1 ? asagi_grid_get_int(G(g), pos, l) : G(g)->getInt(pos, l); *(int *)buf = x; break; }
	case 2: { long x = api == 2 ? f90asagi_grid_get_long(F(g), pos, l) : api == 1 ? asagi_grid_get_long(G(g), pos, l) : G(g)->getLong(pos, l); *(long *)buf = x; break; }
	case 3: { float x = api == 2 ? f90asagi_grid_get_float(F(g), pos, l) : api == 1 ? asagi_grid_get_float(G(g), pos, l) : G(g)->getFloat(pos, l); *(float *)buf = x; break; }
	case 4: { double x = api == 2 ? f90asagi_grid_get_double(F(g), pos, l) : api == 1 ? asagi_grid_get_double(G(g), pos, l) : G(g)->getDouble(pos, l); *(double *)buf = x; break; }
	default:
		if (api == 2) f90asagi_grid_get_buf(F(g), buf, pos, l);
		else if (api == 1) asagi_grid_get_buf(G(g), buf, pos, l);
		else G(g)->getBuf(buf, pos, l);
	}
}
unsigned long counter(int api, void *g, const char *n, unsigned l) { return (api == 2 ? grid::Grid::f2c(F(g)) : G(g))->getCounter(n, l); }
void close(int api, void *g) { if (api == 2) f90asagi_grid_close(F(g)); else if (api == 1) asagi_grid_close(G(g)); else asagi::Grid::close(G(g)); }
int startComm(int api, int cpu, void *c)
{
#ifndef ASAGI_NOMPI
	return api == 2 ? f90asagi_start_comm_thread(cpu, MPI_Comm_c2f((MPI_Comm)c)) : api == 1 ? asagi_start_comm_thread(cpu, (MPI_Comm)c) : asagi::Grid::startCommThread(cpu, (MPI_Comm)c);
#else
	return 0;
#endif
}
void stopComm(int api)
{
#ifndef ASAGI_NOMPI
	if (api == 2) f90asagi_stop_comm_thread(); else if (api == 1) asagi_stop_comm_thread(); else asagi::Grid::stopCommThread();
#endif
}
int nodeLocalRank(int api, void *c)
{
#ifndef ASAGI_NOMPI
	return api == 2 ? f90asagi_node_local_rank(MPI_Comm_c2f((MPI_Comm)c)) : api == 1 ? asagi_node_local_rank((MPI_Comm)c) : asagi::Grid::nodeLocalRank((MPI_Comm)c);
#else
	return 0;
#endif
}
#ifdef THREADSAFE_MPI
#define TM 1
#else
#define TM 0
#endif
#ifdef ASAGI_NOMPI
#define NM 1
#else
#define NM 0
#endif
#ifdef ASAGI_NONUMA
#define NN 1
#else
#define NN 0
#endif
#ifdef ROUND_ROBIN
#define RR 1
#else
#define RR 0
#endif
#ifdef THREADSAFE_COUNTER
#define TC 1
#else
#define TC 0
#endif
const Glue glue = {TM, NM, NN, RR, TC, MAX_DIMENSIONS, create, setComm, setThreads, setParam, open, dimensions, gmin, gmax, delta, varSize, get, counter, close, startComm, stopComm, nodeLocalRank};
}
extern "C" const Glue *sim_glue() { return &glue; }
