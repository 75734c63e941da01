// Simulated netCDF library: read access to in-memory files. Not thread safe, as the real one:
// two threads of one process inside the library at the same time are reported.
#include "nc.hpp"
#include "plat.hpp"
#include <netcdf.h>

namespace sim {
std::vector<NcFile *> ncFiles;
struct Open { NcFile *f; int rank; bool live; };
static std::vector<Open> opened;
static std::map<std::pair<int, std::string>, NcLedger> ledgers;
struct Inside { int n = 0; const char *fn = ""; std::string who; };
static std::map<int, Inside> inside;

void ncReset() { opened.clear(); ledgers.clear(); inside.clear(); }
NcFile *ncFind(const std::string &n) { for (NcFile *f : ncFiles) if (f->name == n) return f; return nullptr; }
NcLedger &ncLedger(int rank, const std::string &f) { return ledgers[{rank, f}]; }
int ncOpen(int rank) { int n = 0; for (auto &o : opened) n += o.live && o.rank == rank; return n; }
size_t ncTypeSize(int t)
{
	switch (t) {
	case NC_BYTE: case NC_CHAR: case NC_UBYTE: return 1;
	case NC_SHORT: case NC_USHORT: return 2;
	case NC_INT: case NC_UINT: case NC_FLOAT: return 4;
	case NC_INT64: case NC_UINT64: case NC_DOUBLE: return 8;
	}
	return 0;
}
// the process that read a cell (-1: none or several)
int ncLoaderRank(const std::string &file, const std::vector<int> &ranks, size_t cell, int &node)
{
	int r = -1;
	for (int k : ranks) {
		NcLedger &l = ncLedger(k, file);
		if (cell < l.cells.size() && l.cells[cell]) { if (r >= 0) return -1; r = k; node = l.node[cell]; }
	}
	return r;
}
double ncValue(int t, const void *p)
{
	switch (t) {
	case NC_BYTE: return *(const signed char *)p;
	case NC_CHAR: case NC_UBYTE: return *(const unsigned char *)p;
	case NC_SHORT: return *(const short *)p;
	case NC_USHORT: return *(const unsigned short *)p;
	case NC_INT: return *(const int *)p;
	case NC_UINT: return *(const unsigned *)p;
	case NC_INT64: return *(const long long *)p;
	case NC_UINT64: return *(const unsigned long long *)p;
	case NC_FLOAT: return *(const float *)p;
	case NC_DOUBLE: return *(const double *)p;
	}
	return 0;
}

struct NcCall {
	NcCall(const char *fn)
	{
		if (!cur) return;
		cur->depth++;
		Inside &in = inside[cur->rank];
		if (in.n) violation("concurrent-netcdf", fmt("%s is called while %s is inside %s of the netCDF library, which is not thread safe", fn, in.who.c_str(), in.fn));
		in.n++; in.fn = fn; in.who = cur->name;
		trace("%s", fn);
		point(P_SYNC);
	}
	~NcCall() { if (!cur) return; point(P_SYNC); inside[cur->rank].n--; cur->depth--; }
};
static NcFile *F(int id, const char *fn)
{
	if (id < 65536 || id - 65536 >= (int)opened.size()) violation("netcdf-usage", fmt("%s: invalid file id %d", fn, id));
	Open &o = opened[id - 65536];
	if (!o.live) violation("netcdf-usage", fmt("%s: the file is already closed", fn));
	if (o.rank != rank()) violation("netcdf-usage", fmt("%s: file id of another process", fn));
	return o.f;
}
static NcVar *V(NcFile *f, int v, const char *fn)
{
	if (v < 0 || v >= (int)f->vars.size()) violation("netcdf-usage", fmt("%s: invalid variable id %d", fn, v));
	return &f->vars[v];
}
static void convert(const NcVar &v, size_t cell, int as, void *out)
{
	const char *p = v.at(cell);
	if (as == 0) { memcpy(out, p, v.esize); return; }
	double d = ncValue(v.type, p);
	switch (as) {
	case NC_BYTE: *(signed char *)out = (signed char)d; break;
	case NC_UBYTE: *(unsigned char *)out = (unsigned char)(int)d; break;
	case NC_SHORT: *(short *)out = (short)d; break;
	case NC_USHORT: *(unsigned short *)out = (unsigned short)d; break;
	case NC_INT: *(int *)out = (int)d; break;
	case NC_UINT: *(unsigned *)out = (unsigned)d; break;
	case NC_INT64: *(long long *)out = v.type == NC_INT64 ? *(const long long *)p : (long long)d; break;
	case NC_UINT64: *(unsigned long long *)out = (unsigned long long)d; break;
	case NC_FLOAT: *(float *)out = (float)d; break;
	case NC_DOUBLE: *(double *)out = d; break;
	}
}

static int get(const char *fn, int id, int var, const size_t *start, const size_t *count, const ptrdiff_t *stride, const ptrdiff_t *imap, void *buf, int as)
{
	NcFile *f = F(id, fn); NcVar *v = V(f, var, fn);
	bool user = v->type >= NC_FIRSTUSERTYPEID;
	if (user && as) return NC_EBADTYPE;
	size_t nd = v->dims.size(), es = as ? ncTypeSize(as) : v->esize;
	std::vector<size_t> st(nd, 0), ct(nd), mult(nd, 1); std::vector<ptrdiff_t> sr(nd, 1), im(nd, 1);
	size_t total = 1;
	for (size_t i = 0; i < nd; i++) {
		size_t len = f->dims[v->dims[i]].second;
		if (start) { checkRange(start + i, sizeof(size_t), false, fn); st[i] = start[i]; }
		if (count) { checkRange(count + i, sizeof(size_t), false, fn); ct[i] = count[i]; } else ct[i] = start && !count ? 1 : len;
		if (stride) { checkRange(stride + i, sizeof(ptrdiff_t), false, fn); sr[i] = stride[i]; if (sr[i] < 1) return NC_ESTRIDE; }
		if (st[i] > len || (st[i] == len && ct[i])) return NC_EINVALCOORDS;
		if (ct[i] && st[i] + (ct[i] - 1) * sr[i] >= len) return NC_EEDGE;
		total *= ct[i];
	}
	for (size_t i = nd; i-- > 0;) { mult[i] = i + 1 < nd ? mult[i + 1] * f->dims[v->dims[i + 1]].second : 1; im[i] = i + 1 < nd ? im[i + 1] * (ptrdiff_t)ct[i + 1] : 1; }
	if (imap) for (size_t i = 0; i < nd; i++) { checkRange(imap + i, sizeof(ptrdiff_t), false, fn); im[i] = imap[i]; }
	bool bad = fault(F_NC_GET);
	NcLedger &led = ncLedger(rank(), f->name);
	bool data = nd && !(nd == 1 && v->name == f->dims[v->dims[0]].first);
	if (bad) led.errors++;
	else if (data) led.loads++;
	data = data && !v->gen;
	if (data && !bad) { if (led.cells.size() < v->data.size() / v->esize) { led.cells.resize(v->data.size() / v->esize); led.node.resize(led.cells.size()); } }
	std::vector<size_t> pos(nd, 0);
	for (size_t n = 0; n < total; n++) {
		if (bad && n >= (total + 1) / 2) break; // only the first part was transferred
		size_t cell = 0; ptrdiff_t off = 0;
		for (size_t i = 0; i < nd; i++) { cell += (st[i] + pos[i] * sr[i]) * mult[i]; off += pos[i] * im[i]; }
		char tmp[256];
		if (bad) memset(tmp, 0x5A, es); else { convert(*v, cell, as, tmp); if (data) { led.cells[cell]++; led.node[cell] = platform.cpuNode[cur->cpu]; } }
		char *dst = (char *)buf + off * (ptrdiff_t)es;
		if (n % 4 == 0) point(P_MEM);
		checkRange(dst, es, true, fn);
		memcpy(dst, tmp, es);
		for (size_t i = nd; i-- > 0;) { if (++pos[i] < ct[i]) break; pos[i] = 0; }
	}
	trace("%s %s.%s (%zu cells)%s", fn, f->name.c_str(), v->name.c_str(), total, bad ? " FAILED" : "");
	return bad ? NC_EHDFERR : NC_NOERR;
}
}
using namespace sim;

extern "C" {
int nc_open(const char *path, int, int *id)
{
	NcCall c(__func__);
	if (fault(F_NC_OPEN)) return NC_EHDFERR;
	NcFile *f = ncFind(path);
	if (!f) return 2;
	opened.push_back(Open{f, rank(), true});
	*id = 65535 + opened.size();
	ncLedger(rank(), f->name).opens++;
	return NC_NOERR;
}
int nc_close(int id) { NcCall c(__func__); NcFile *f = F(id, __func__); ncLedger(rank(), f->name).closes++; opened[id - 65536].live = false; return NC_NOERR; }
int nc_inq_varid(int id, const char *n, int *v)
{
	NcCall c(__func__); NcFile *f = F(id, __func__);
	if (fault(F_NC_INQ)) return NC_EHDFERR;
	for (size_t i = 0; i < f->vars.size(); i++) if (f->vars[i].name == n) { *v = i; return NC_NOERR; }
	return NC_ENOTVAR;
}
int nc_inq_varndims(int id, int v, int *n) { NcCall c(__func__); NcVar *x = V(F(id, __func__), v, __func__); if (fault(F_NC_INQ)) return NC_EHDFERR; *n = x->dims.size(); return NC_NOERR; }
int nc_inq_vardimid(int id, int v, int *d) { NcCall c(__func__); NcVar *x = V(F(id, __func__), v, __func__); if (fault(F_NC_INQ)) return NC_EHDFERR; for (size_t i = 0; i < x->dims.size(); i++) { checkRange(d + i, 4, true, __func__); d[i] = x->dims[i]; } return NC_NOERR; }
static int dimOf(NcFile *f, int d) { return d >= 0 && d < (int)f->dims.size(); }
int nc_inq_dim(int id, int d, char *n, size_t *l) { NcCall c(__func__); NcFile *f = F(id, __func__); if (!dimOf(f, d)) return NC_EBADDIM; if (fault(F_NC_INQ)) return NC_EHDFERR; if (n) strcpy(n, f->dims[d].first.c_str()); if (l) *l = f->dims[d].second; return NC_NOERR; }
int nc_inq_dimlen(int id, int d, size_t *l) { return nc_inq_dim(id, d, nullptr, l); }
int nc_inq_dimname(int id, int d, char *n) { return nc_inq_dim(id, d, n, nullptr); }
int nc_inq_dimid(int id, const char *n, int *d) { NcCall c(__func__); NcFile *f = F(id, __func__); for (size_t i = 0; i < f->dims.size(); i++) if (f->dims[i].first == n) { *d = i; return NC_NOERR; } return NC_EBADDIM; }
int nc_inq_vartype(int id, int v, nc_type *t) { NcCall c(__func__); NcVar *x = V(F(id, __func__), v, __func__); if (fault(F_NC_INQ)) return NC_EHDFERR; *t = x->type; return NC_NOERR; }
int nc_inq_varname(int id, int v, char *n) { NcCall c(__func__); strcpy(n, V(F(id, __func__), v, __func__)->name.c_str()); return NC_NOERR; }
int nc_inq_var(int id, int v, char *n, nc_type *t, int *nd, int *d, int *na)
{
	NcCall c(__func__); NcVar *x = V(F(id, __func__), v, __func__); if (fault(F_NC_INQ)) return NC_EHDFERR;
	if (n) strcpy(n, x->name.c_str()); if (t) *t = x->type; if (nd) *nd = x->dims.size(); if (na) *na = 0;
	if (d) for (size_t i = 0; i < x->dims.size(); i++) d[i] = x->dims[i];
	return NC_NOERR;
}
int nc_inq_type(int id, nc_type t, char *n, size_t *s)
{
	NcCall c(__func__); NcFile *f = F(id, __func__); if (fault(F_NC_INQ)) return NC_EHDFERR;
	size_t z = ncTypeSize(t);
	if (!z) { auto it = f->userTypes.find(t); if (it == f->userTypes.end()) return NC_EBADTYPE; z = it->second; }
	if (n) strcpy(n, "type"); if (s) *s = z;
	return NC_NOERR;
}
const char *nc_strerror(int e) { return e == NC_NOERR ? "No error" : "simulated netCDF error"; }
int nc_get_var1_double(int id, int v, const size_t *s, double *r) { NcCall c(__func__); return get(__func__, id, v, s, nullptr, nullptr, nullptr, r, NC_DOUBLE); }
int nc_get_vara(int id, int v, const size_t *s, const size_t *n, void *r) { NcCall c(__func__); return get(__func__, id, v, s, n, nullptr, nullptr, r, 0); }
int nc_get_vars(int id, int v, const size_t *s, const size_t *n, const ptrdiff_t *st, void *r) { NcCall c(__func__); return get(__func__, id, v, s, n, st, nullptr, r, 0); }
int nc_get_varm(int id, int v, const size_t *s, const size_t *n, const ptrdiff_t *st, const ptrdiff_t *im, void *r) { NcCall c(__func__); return get(__func__, id, v, s, n, st, im, r, 0); }
int nc_get_var(int id, int v, void *r) { NcCall c(__func__); return get(__func__, id, v, nullptr, nullptr, nullptr, nullptr, r, 0); }
int nc_get_var1(int id, int v, const size_t *s, void *r) { NcCall c(__func__); return get(__func__, id, v, s, nullptr, nullptr, nullptr, r, 0); }
#define X(T, C, N) \
	int nc_get_vara_##T(int id, int v, const size_t *s, const size_t *n, C *r) { NcCall c(__func__); return get(__func__, id, v, s, n, nullptr, nullptr, r, N); } \
	int nc_get_vars_##T(int id, int v, const size_t *s, const size_t *n, const ptrdiff_t *st, C *r) { NcCall c(__func__); return get(__func__, id, v, s, n, st, nullptr, r, N); } \
	int nc_get_varm_##T(int id, int v, const size_t *s, const size_t *n, const ptrdiff_t *st, const ptrdiff_t *im, C *r) { NcCall c(__func__); return get(__func__, id, v, s, n, st, im, r, N); } \
	int nc_get_var_##T(int id, int v, C *r) { NcCall c(__func__); return get(__func__, id, v, nullptr, nullptr, nullptr, nullptr, r, N); }
X(uchar, unsigned char, NC_UBYTE) X(schar, signed char, NC_BYTE) X(ubyte, unsigned char, NC_UBYTE) X(short, short, NC_SHORT) X(ushort, unsigned short, NC_USHORT) X(int, int, NC_INT) X(uint, unsigned, NC_UINT)
X(long, long, NC_INT64) X(longlong, long long, NC_INT64) X(ulonglong, unsigned long long, NC_UINT64) X(float, float, NC_FLOAT) X(double, double, NC_DOUBLE)
#undef X
#define Y(T, C, N) int nc_get_var1_##T(int id, int v, const size_t *s, C *r) { NcCall c(__func__); return get(__func__, id, v, s, nullptr, nullptr, nullptr, r, N); }
Y(uchar, unsigned char, NC_UBYTE) Y(int, int, NC_INT) Y(long, long, NC_INT64) Y(float, float, NC_FLOAT)
#undef Y
}
