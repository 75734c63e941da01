// Whole-system runs: application threads on all processes walk through a program; oracles.
#include "scen.hpp"
#include "plat.hpp"
#include "mpi.hpp"
#include "nc.hpp"
#include <netcdf.h>
#include <cmath>
#include <sstream>
#include <memory>

namespace sim {

std::vector<std::string> split(const std::string &s, char c)
{
	std::vector<std::string> r; std::string w; std::istringstream i(s);
	while (std::getline(i, w, c)) if (c != ' ' || !w.empty()) r.push_back(w);
	return r;
}
static double num(const std::string &s) { return strtod(s.c_str(), nullptr); }
struct Args {
	std::vector<std::string> pos; std::map<std::string, std::string> kv;
	Args(const std::string &l) { for (auto &w : split(l)) { size_t e = w.find('='); if (e == std::string::npos || e == 0) pos.push_back(w); else kv[w.substr(0, e)] = w.substr(e + 1); } }
	std::string get(const std::string &k, const std::string &d) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
	long geti(const std::string &k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
	bool has(const std::string &k) const { return kv.count(k); }
	int i(size_t n) const { return n < pos.size() ? atoi(pos[n].c_str()) : 0; }
	std::string s(size_t n) const { return n < pos.size() ? pos[n] : ""; }
};

// ---- scenario text -------------------------------------------------------
std::string Scenario::text() const
{
	std::string t = "variant " + variant + (comp.empty() ? "" : " " + comp) + "\n";
	t += fmt("cfg mode=%d pMem=%.6g pSync=%.6g pctDepth=%d pctLen=%lu stall=%d:%lu:%lu net=%.6g eager=%.6g spur=%.6g lazy=%.6g rma=%.6g pnet=%.6g prand=%.6g fair=%lu max=%lu fill=%d\n",
		cfg.mode, cfg.pMem, cfg.pSync, cfg.pctDepth, (unsigned long)cfg.pctLen, cfg.stallFiber, (unsigned long)cfg.stallFrom, (unsigned long)cfg.stallLen, cfg.netWeight,
		cfg.pEager, cfg.pSpur, cfg.pLazy, cfg.pRma, cfg.pNet, cfg.pRand, (unsigned long)cfg.fairAfter, (unsigned long)cfg.maxSteps, cfg.fill);
	for (auto &f : faults) t += f + "\n";
	for (auto &l : lines) t += l + "\n";
	return t;
}
Scenario Scenario::parse(const std::string &text, std::vector<Dev> *devs, std::string *expect)
{
	Scenario s;
	for (auto &l : split(text, '\n')) {
		if (l.empty() || l[0] == '#') continue;
		Args a(l); std::string c = a.s(0);
		if (c == "variant") { s.variant = a.s(1); s.comp = a.s(2); }
		else if (c == "cfg") {
			RunCfg &g = s.cfg;
			g.mode = a.geti("mode", 0); g.pMem = num(a.get("pMem", "0.02")); g.pSync = num(a.get("pSync", "0.3")); g.pctDepth = a.geti("pctDepth", 3); g.pctLen = a.geti("pctLen", 20000);
			auto st = split(a.get("stall", "-1:0:0"), ':'); g.stallFiber = atoi(st[0].c_str()); g.stallFrom = atol(st[1].c_str()); g.stallLen = atol(st[2].c_str());
			g.netWeight = num(a.get("net", "1")); g.pEager = num(a.get("eager", "0.5")); g.pSpur = num(a.get("spur", "0")); g.pLazy = num(a.get("lazy", "0.5")); g.pRma = num(a.get("rma", "0.5"));
			g.pNet = num(a.get("pnet", "0.7")); g.pRand = num(a.get("prand", "0.7")); g.fairAfter = a.geti("fair", 1500000); g.maxSteps = a.geti("max", 4000000); g.fill = a.geti("fill", 203);
		}
		else if (c == "fault") s.faults.push_back(l);
		else if (c == "dev") { if (devs) devs->push_back(Dev{a.i(1), a.i(2), (uint64_t)atoll(a.s(3).c_str()), atoll(a.s(4).c_str())}); }
		else if (c == "expect") { if (expect) *expect = l.substr(7); }
		else s.lines.push_back(l);
	}
	return s;
}

// ---- definitions ---------------------------------------------------------
struct FileDef {
	std::string name, var; int type; int n; bool user; std::vector<size_t> len; std::vector<bool> has; std::vector<double> off, sc; NcFile *f; NcVar *v; bool present;
	std::vector<int> ftypes; // structure: types of the fields
	size_t cells() const { size_t c = 1; for (size_t l : len) c *= l; return c; }
};
struct GridRt { void *h = nullptr; bool created = false, closed = false, dead = false; std::map<int, std::map<int, int>> res; std::map<int, uint64_t> reads; std::map<int, uint64_t> mpiReads, numaReads; std::map<int, std::map<int, std::set<size_t>>> mpiBlocks, numaBlocks; std::map<std::pair<int, int>, int> openLine; };
struct GridDef {
	int from = 0; bool has(int t) const { return t >= from && t < from + threads; }
	std::string name; int api, kind, type; std::string comm; int threads; std::vector<unsigned> slen; std::vector<int> stypes; std::vector<unsigned long> sdis;
	std::vector<std::tuple<int, std::string, std::string>> params;
	std::map<int, std::string> levelFile;
	std::vector<GridRt> rt; // per rank
	unsigned tag = 0;
	// parameter names and most values are not case-sensitive, '-' is the same as '_'
	static std::string norm(std::string s) { for (char &c : s) c = c == '-' ? '_' : toupper(c); return s; }
	std::string param(const std::string &n, const std::string &d, int level) const { std::string r = d; for (auto &p : params) if (std::get<0>(p) == level && norm(std::get<1>(p)) == n) r = n == "VARIABLE" || !n.compare(0, 11, "BLOCK_SIZE_") ? std::get<2>(p) : isdigit(std::get<2>(p)[0]) || std::get<2>(p)[0] == '-' ? std::get<2>(p) : norm(std::get<2>(p)); return r; }
};
struct CommDef { void *core; std::vector<int> members; };

static int nThreads, nNodes;
static std::map<std::string, FileDef> files;
static std::map<std::string, GridDef> grids;
static std::map<std::string, CommDef> commDefs;
static std::vector<std::string> prog;
static std::vector<std::vector<int>> place;
static std::map<std::pair<int, int>, std::map<int, int>> arrivals; // (line, rank or -1) -> fibers that arrived
static std::vector<const Glue *> glue;
static std::vector<int> commRunning;
static bool anyFault() { for (int i = 0; i < F_PLANNED_NUM; i++) if (shr->faults[i]) return true; return false; }

static size_t typeSize(int t) { static const size_t s[] = {1, 4, 8, 4, 8}; return s[t]; }
static int ncType(int t) { static const int s[] = {NC_BYTE, NC_INT, NC_INT64, NC_FLOAT, NC_DOUBLE}; return s[t]; }
static void putVal(int t, void *p, double v)
{
	switch (t) {
	case 0: *(signed char *)p = (signed char)v; break;
	case 1: *(int *)p = (int)v; break;
	case 2: *(long *)p = (long)v; break;
	case 3: *(float *)p = (float)v; break;
	case 4: *(double *)p = v; break;
	}
}
static double getVal(int t, const void *p)
{
	switch (t) {
	case 0: return *(const unsigned char *)p;
	case 1: return *(const int *)p;
	case 2: return *(const long *)p;
	case 3: return *(const float *)p;
	}
	return *(const double *)p;
}
// structure layout: natural alignment
static size_t layout(const std::vector<unsigned> &len, const std::vector<int> &types, std::vector<unsigned long> &dis)
{
	size_t o = 0, al = 1; dis.clear();
	for (size_t i = 0; i < types.size(); i++) { size_t s = typeSize(types[i]); al = std::max(al, s); o = (o + s - 1) / s * s; dis.push_back(o); o += s * len[i]; }
	return (o + al - 1) / al * al;
}
static std::vector<unsigned> ulist(const std::string &s) { std::vector<unsigned> r; for (auto &x : split(s, ',')) r.push_back(atoi(x.c_str())); return r; }

// file NAME type=3 n=1 user=0 dims=5,7 coords=0.5:0.25,- var=z base=1 frac=0 neg=0 [fields=t:l,t:l] [missing=1]
static void defFile(const Args &a)
{
	FileDef d; d.name = a.s(1); d.var = a.get("var", "z"); d.type = a.geti("type", 3); d.n = a.geti("n", 1); d.user = a.geti("user", 0);
	for (auto &x : split(a.get("dims", "4"), ',')) d.len.push_back(strtoul(x.c_str(), nullptr, 10));
	bool big = a.geti("big", 0);
	auto co = split(a.get("coords", ""), ',');
	for (size_t i = 0; i < d.len.size(); i++) {
		bool h = i < co.size() && co[i] != "-"; d.has.push_back(h);
		if (h) { auto p = split(co[i], ':'); d.off.push_back(num(p[0])); d.sc.push_back(num(p[1])); } else { d.off.push_back(0); d.sc.push_back(1); }
	}
	NcFile *f = new NcFile(); f->name = d.name;
	for (size_t i = 0; i < d.len.size(); i++) f->dims.push_back({fmt("d%zu", i), d.len[i]});
	for (size_t i = 0; i < d.len.size(); i++) if (d.has[i]) {
		NcVar v{fmt("d%zu", i), NC_DOUBLE, 8, {(int)i}, std::vector<char>(big ? 0 : 8 * d.len[i]), nullptr, {}};
		if (big) { double o = d.off[i], sc = d.sc[i]; v.data.clear(); v.gen = [o, sc](size_t k, char *p) { *(double *)p = o + sc * k; }; }
		else for (size_t k = 0; k < d.len[i]; k++) ((double *)v.data.data())[k] = d.off[i] + d.sc[i] * k;
		f->vars.push_back(v);
	}
	NcVar v; v.name = d.var; for (size_t i = 0; i < d.len.size(); i++) v.dims.push_back(i);
	std::vector<unsigned> fl; std::vector<unsigned long> dis;
	if (a.has("fields")) { for (auto &x : split(a.get("fields", ""), ',')) { auto p = split(x, ':'); d.ftypes.push_back(atoi(p[0].c_str())); fl.push_back(atoi(p[1].c_str())); } v.esize = layout(fl, d.ftypes, dis); d.user = true; }
	else v.esize = typeSize(d.type) * d.n;
	v.type = d.user ? NC_FIRSTUSERTYPEID + (int)f->userTypes.size() : ncType(d.type);
	if (d.user) f->userTypes[v.type] = v.esize;
	size_t cells = d.cells(); double base = num(a.get("base", "1")), frac = num(a.get("frac", "0")); bool neg = a.geti("neg", 0);
	size_t per = 0; for (unsigned l : fl) per += l; if (fl.empty()) per = d.n;
	auto fill = [d, fl, dis, base, frac, neg, per, big](size_t c, char *p) {
		size_t k = big ? c * per % 16777213 : c * per;
		auto val = [&](int t) { double x = base + k++; if (t == 0) x = fmod(x, 128); if (neg && (k & 1) && t != 0) x = -x; if (t >= 3) x += x < 0 ? -frac : frac; return x; };
		if (d.ftypes.empty()) for (int i = 0; i < d.n; i++) putVal(d.type, p + i * typeSize(d.type), val(d.type));
		else for (size_t j = 0; j < fl.size(); j++) for (unsigned i = 0; i < fl[j]; i++) putVal(d.ftypes[j], p + dis[j] + i * typeSize(d.ftypes[j]), val(d.ftypes[j]));
	};
	if (big) v.gen = fill;
	else { v.data.assign(cells * v.esize, 0); for (size_t c = 0; c < cells; c++) fill(c, v.data.data() + c * v.esize); }
	f->vars.push_back(v);
	d.present = !a.geti("missing", 0);
	if (d.present) ncFiles.push_back(f);
	d.f = f;
	files[d.name] = d;
	files[d.name].v = &f->vars.back();
}
static void defGrid(const Args &a)
{
	GridDef g; g.name = a.s(1); g.api = a.geti("api", 0); g.kind = a.geti("kind", 0); g.type = a.geti("type", 3); g.comm = a.get("comm", "none"); g.threads = a.geti("threads", 1); g.from = a.geti("from", 0);
	if (g.kind == 2) { for (auto &x : split(a.get("fields", ""), ',')) { auto p = split(x, ':'); g.stypes.push_back(atoi(p[0].c_str())); g.slen.push_back(atoi(p[1].c_str())); } layout(g.slen, g.stypes, g.sdis); }
	g.rt.resize(numRanks); g.tag = grids.size() + 1;
	grids[g.name] = g;
}
static std::vector<int> membersOf(const std::string &comm)
{
	std::vector<int> all; for (int i = 0; i < numRanks; i++) all.push_back(i);
	if (comm == "none" || comm == "world" || comm == "self") return all;
	auto it = commDefs.find(comm);
	return it == commDefs.end() ? std::vector<int>() : it->second.members;
}
std::map<std::string, std::vector<long>> compState;
int compThreads = 1;
std::vector<int> compMembers(const std::string &name) { return membersOf(name); }
int compPlace(int r, int t) { return place[r][t]; }
static bool isMember(const std::string &comm, int r) { for (int m : membersOf(comm)) if (m == r) return true; return false; }
extern "C" char ompi_mpi_comm_world[], ompi_mpi_comm_self[];
static void *commOf(const std::string &comm, int r)
{
	if (comm == "world") return ompi_mpi_comm_world;
	if (comm == "self") return ompi_mpi_comm_self;
	return mpiCommHandle(commDefs[comm].core, r);
}

void *compComm(const std::string &name, int r) { Guard k; return commOf(name, r); }

// no message is under way and the threads of the library wait for the next one
static bool quiet()
{
	if (!mpiDrained()) return false;
	for (Fiber *f : fibers) if (f->cfn && !f->net && !f->done && !(f->blocked && f->pred && !f->pred())) return false;
	return true;
}

// barrier of the application: all fibers of a rank (or all: rank -1); each fiber passes a line once
static void appBarrier(int line, int rk, int count)
{
	auto &a = arrivals[{line, rk}];
	a[cur->id] = 1;
	block([&a, count] { return (int)a.size() >= count; }, "application barrier");
}

static int nodeOf(int r, int t) { return platform.cpuNode[place[r][t]]; }
static int domainsOf(const GridDef &g, int r)
{
	if (glue[r]->noNuma || g.param("NUMA_COMMUNICATION", "ON", 0) == "OFF") return 1;
	std::set<int> s; for (int t = g.from; t < g.from + g.threads && t < nThreads; t++) s.insert(nodeOf(r, t)); return s.size();
}
// processes that share the data of a grid
static std::vector<int> peersOf(const GridDef &g, int r)
{
	if (glue[r]->noMpi || g.comm == "none" || g.comm == "self" || g.param("MPI_COMMUNICATION", "WINDOW", 0) == "OFF") return {r};
	return membersOf(g.comm);
}
static std::string where(const GridDef &g, int level) { return fmt("grid %s level %d", g.name.c_str(), level); }

// nearest cell: u in cell units per dimension (C order)
static size_t cellOf(const FileDef &f, const std::vector<double> &u, std::vector<size_t> *idx = nullptr)
{
	size_t nd = f.len.size(), c = 0;
	for (size_t i = 0; i < nd; i++) {
		double x = i < nd ? floor(u[nd - 1 - i] + 0.5) : 0;
		if (f.len[i] == 1) x = 0;
		if (x < 0) x = 0; if (x > f.len[i] - 1) x = f.len[i] - 1;
		c = c * f.len[i] + (size_t)x;
		if (idx) idx->push_back((size_t)x);
	}
	return c;
}
static void toPos(const FileDef &f, const std::vector<double> &u, double *pos)
{
	size_t nd = f.len.size();
	for (size_t i = 0; i < nd; i++) pos[i] = f.off[nd - 1 - i] + f.sc[nd - 1 - i] * u[i];
}

static void checkMeta(GridDef &g, GridRt &rt, int r, int level)
{
	const Glue *l = glue[r];
	const FileDef &f = files[g.levelFile[level]];
	size_t nd = f.len.size();
	unsigned dims, vs;
	{ Call c; dims = l->dimensions(g.api, rt.h); vs = l->varSize(g.api, rt.h); }
	if (level == 0 && dims != nd) violation("wrong-meta", fmt("%s: %u dimensions instead of %zu", where(g, level).c_str(), dims, nd));
	size_t want = g.kind == 0 ? typeSize(g.type) : f.v->esize;
	if (vs != want) violation("wrong-meta", fmt("%s: cell size %u instead of %zu", where(g, level).c_str(), vs, want));
	bool cell = g.param("VALUE_POSITION", "CELL_CENTERED", 0) != "VERTEX_CENTERED";
	for (size_t i = 0; i < nd; i++) {
		size_t d = nd - 1 - i; double sc = f.sc[d], o = f.off[d], mn, mx, de;
		{ Call c; mn = l->min(g.api, rt.h, i); mx = l->max(g.api, rt.h, i); de = l->delta(g.api, rt.h, i, level); }
		double e0 = o, e1 = o + sc * (f.len[d] - 1); if (cell) { e0 -= sc / 2; e1 += sc / 2; } if (e0 > e1) std::swap(e0, e1);
		double rnd = 4e-15 * (std::fabs(e0) + std::fabs(e1));
		bool one = f.len[d] == 1; double tol = std::fabs(sc) * 1e-6 + rnd;
		if (one ? !std::isinf(de) : std::fabs(de - std::fabs(sc)) > std::fabs(sc) * 1e-9 + rnd) violation("wrong-meta", fmt("%s: spacing %g in dimension %zu instead of %g", where(g, level).c_str(), de, i, one ? INFINITY : std::fabs(sc)));
		if (level == 0 && (one ? !(std::isinf(mn) && mn < 0 && std::isinf(mx) && mx > 0) : std::fabs(mn - e0) > tol || std::fabs(mx - e1) > tol))
			violation("wrong-meta", fmt("%s: range %g..%g in dimension %zu instead of %g..%g", where(g, level).c_str(), mn, mx, i, e0, e1));
	}
	probe("meta_queries");
}

static double convertTo(int as, double v)
{
	switch (as) { case 0: return (unsigned char)(long)v; case 1: return (int)v; case 2: return (long)v; case 3: return (float)v; }
	return v;
}

// extent of a block in dimension i (order of the file) and the block of a cell
static size_t blockLen(GridDef &g, int level, const FileDef &f, size_t i)
{
	size_t nd = f.len.size(), c = nd - 1 - i;
	int b = atoi(g.param(fmt("BLOCK_SIZE_%zu", c), "0", level).c_str());
	bool time = atoi(g.param("TIME_DIMENSION", "-1", 0).c_str()) == (int)c;
	size_t n = b == 0 ? (time ? 1 : 64) : b < 0 ? f.len[i] : (size_t)b;
	return std::min(n, f.len[i]);
}

static size_t blockOf(GridDef &g, int level, size_t cell)
{
	const FileDef &f = files[g.levelFile[level]];
	size_t id = 0, mult = 1;
	for (size_t i = f.len.size(); i-- > 0;) { size_t x = cell % f.len[i], b = blockLen(g, level, f, i); cell /= f.len[i]; id += x / b * mult; mult *= (f.len[i] + b - 1) / b; }
	return id;
}

static bool commStarted[64]; // a program only stops a communication thread it could start

static void doRead(GridDef &g, GridRt &rt, int r, int t, int level, int as, const std::vector<double> &u, long maxLoads)
{
	const FileDef &f = files[g.levelFile[level]];
	double pos[8] = {0}; toPos(f, u, pos);
	size_t cell = cellOf(f, u);
	const char *want = f.v->at(cell);
	unsigned char buf[512]; memset(buf, 0xE7, sizeof buf);
	double ev = 0;
	if (as != 5) {
		ev = getVal(f.ftypes.empty() ? f.type : f.ftypes[0], want);
		if (f.type == 0 && f.ftypes.empty()) ev = *(const signed char *)want;
		if (g.kind == 0) ev = convertTo(g.type, ev);
		if (as == 0 && (ev < 0 || ev > 255)) as = 1;
	}
	// where was this cell loaded from (full grids)?
	NcLedger *own = nullptr; (void)own;
	uint64_t before = 0;
	if (maxLoads >= 0) for (int k = 0; k < numRanks; k++) before += ncLedger(k, f.name).loads;
	rt.reads[level]++;
	{ Call c; glue[r]->get(g.api, rt.h, as, buf, pos, level); }
	probe("reads");
	if (as != 5) {
		double v = getVal(as, buf), e = convertTo(as, ev);
		hashEvent((uint64_t)(r * 64 + t) << 40 ^ (uint64_t)(int64_t)v);
		if (v != e) {
			violation("wrong-value", fmt("%s: cell %zu read as type %d gives %.10g, the file (%s) contains %.10g", where(g, level).c_str(), cell, as, v, f.name.c_str(), e));
		}
	} else {
		size_t n = g.kind == 0 ? typeSize(g.type) : f.v->esize;
		unsigned char e[256];
		if (g.kind == 0) { double v = f.type == 0 ? *(const signed char *)want : getVal(f.type, want); v = convertTo(g.type, v); if (g.type == 0) *(unsigned char *)e = (unsigned char)v; else putVal(g.type, e, v); }
		else memcpy(e, want, n);
		// bytes between and behind the fields of a structure have no value
		std::vector<bool> used(n, g.kind != 2);
		if (g.kind == 2) for (size_t k = 0; k < g.stypes.size(); k++) for (size_t b = 0; b < typeSize(g.stypes[k]) * g.slen[k]; b++) used[g.sdis[k] + b] = true;
		for (size_t i = 0; i < n; i++) if (used[i] && buf[i] != e[i]) violation("wrong-value", fmt("%s: cell %zu read as buffer differs from the file (%s) in byte %zu of %zu: %d instead of %d", where(g, level).c_str(), cell, f.name.c_str(), i, n, buf[i], e[i]));
		for (size_t i = n; i < sizeof buf; i++) if (buf[i] != 0xE7) violation("wrong-value", fmt("%s: getBuf writes beyond the %zu bytes of a cell", where(g, level).c_str(), n));
		hashEvent(cell);
	}
	if (maxLoads >= 0) {
		uint64_t after = 0; for (int k = 0; k < numRanks; k++) after += ncLedger(k, f.name).loads;
		if ((long)(after - before) > maxLoads) violation("unneeded-file-read", fmt("%s: reading cell %zu on process %d accessed the file although the block is held in a reachable cache", where(g, level).c_str(), cell, r));
		if (maxLoads == 0) probe("reads_that_must_hit");
	}
	// expected transfers of full grids: by the process and NUMA node that loaded the cell
	if (g.param("GRID", "FULL", 0) == "FULL" && !anyFault()) {
		extern int ncLoaderRank(const std::string &file, const std::vector<int> &ranks, size_t cell, int &node);
		int node = 0, lr = ncLoaderRank(f.name, peersOf(g, r), cell, node);
		int dom = domainsOf(g, r) > 1 ? nodeOf(r, t) : 0;
		if (lr >= 0 && lr != r) { rt.mpiReads[level]++; rt.mpiBlocks[level][dom].insert(blockOf(g, level, cell)); }
		else if (lr == r && domainsOf(g, r) > 1 && node != nodeOf(r, t)) { rt.numaReads[level]++; rt.numaBlocks[level][dom].insert(blockOf(g, level, cell)); }
	}
}

static bool usesFileAlone(const std::string &file)
{
	int n = 0; for (auto &g : grids) for (auto &l : g.second.levelFile) n += l.second == file;
	return n == 1;
}

// number of threads that read at the same time is zero here
static void checkCounters(GridDef &g, GridRt &rt, int r)
{
	const Glue *l = glue[r];
	if (!l->threadsafeCounter && nThreads > 1) return;
	for (auto &lv : g.levelFile) {
		int level = lv.first;
		if (!rt.res.count(level)) continue;
		bool ok = true; for (auto &x : rt.res[level]) if (x.second) ok = false;
		if (!ok) continue;
		unsigned long v[7]; static const char *names[] = {"accesses", "numa_transfers", "mpi_transfers", "file_loads", "local_hits", "node_hits", "local_misses"};
		for (int i = 0; i < 7; i++) { Call c; v[i] = l->counter(g.api, rt.h, names[i], level); }
		unsigned long inv; { Call c; inv = l->counter(g.api, rt.h, "no_such_counter", level); }
		std::string w = where(g, level), grid = g.param("GRID", "FULL", 0);
		if (inv) violation("wrong-counter", fmt("%s: an unknown counter is %lu instead of 0", w.c_str(), inv));
		if (v[0] != rt.reads[level]) violation("wrong-counter", fmt("%s: %lu accesses counted on process %d, but %lu reads were made", w.c_str(), v[0], r, (unsigned long)rt.reads[level]));
		if (v[4] + v[1] + v[2] + v[3] != v[0] || v[5] + v[2] + v[3] != v[0] || v[6] != v[1] + v[2] + v[3])
			violation("wrong-counter", fmt("%s: counters do not add up: accesses %lu numa %lu mpi %lu file %lu local hits %lu node hits %lu misses %lu", w.c_str(), v[0], v[1], v[2], v[3], v[4], v[5], v[6]));
		if (usesFileAlone(lv.second)) {
			uint64_t loads = grid == "FULL" ? 0 : ncLedger(r, lv.second).loads;
			if (v[3] != loads) violation("wrong-counter", fmt("%s: file_loads is %lu on process %d, but %lu blocks were loaded while reading", w.c_str(), v[3], r, (unsigned long)loads));
			bool numaCache = g.param("NUMA_COMMUNICATION", "ON", 0) == "CACHE";
			if (grid == "FULL") {
				// blocks of other processes and domains are cached; if the cache is large enough each one is transferred once
				size_t cacheSize = atoi(g.param("CACHE_SIZE", "128", level).c_str());
				uint64_t mb = 0, nb = 0; bool fits = true; std::map<int, size_t> used;
				for (auto &x : rt.mpiBlocks[level]) { mb += x.second.size(); used[x.first] += x.second.size(); }
				for (auto &x : rt.numaBlocks[level]) { nb += x.second.size(); used[x.first] += x.second.size(); }
				for (auto &x : used) if (x.second > cacheSize) fits = false;
				uint64_t mMax = fits ? mb : rt.mpiReads[level], nMax = fits ? nb : rt.numaReads[level];
				if (numaCache) {
					if (v[1] + v[2] < mb + nb || v[1] + v[2] > mMax + nMax || v[2] > mMax || v[1] < nb) violation("wrong-counter", fmt("%s: %lu NUMA and %lu MPI transfers counted on process %d, but %lu blocks (%lu reads) of other domains and %lu blocks (%lu reads) of other processes were needed", w.c_str(), v[1], v[2], r, nb, rt.numaReads[level], mb, rt.mpiReads[level]));
				} else {
					if (v[2] < mb || v[2] > mMax) violation("wrong-counter", fmt("%s: mpi_transfers is %lu on process %d, but %lu blocks (%lu reads) of other processes were needed", w.c_str(), v[2], r, mb, rt.mpiReads[level]));
					if (v[1] < nb || v[1] > nMax) violation("wrong-counter", fmt("%s: numa_transfers is %lu on process %d, but %lu blocks (%lu reads) of other NUMA domains were needed", w.c_str(), v[1], r, nb, rt.numaReads[level]));
				}
				probe("full_transfer_counts_checked");
			}
			if (grid == "CACHE" && g.levelFile.size() == 1 && grids.size() == 1 && peersOf(g, r).size() > 1) {
				size_t bytes = g.kind == 0 ? typeSize(g.type) : files[lv.second].v->esize; const FileDef &f = files[lv.second]; size_t nd = f.len.size();
				size_t packed = 0; for (size_t k = 0; g.kind == 2 && k < g.stypes.size(); k++) packed += typeSize(g.stypes[k]) * g.slen[k];
				if (!packed) packed = bytes; // structures can be sent with or without padding
				for (size_t i = 0; i < nd; i++) { size_t b = blockLen(g, level, f, i); bytes *= b; packed *= b; }
				if (packed >= 40) {
					uint64_t tr = mpiStats[r].gets[bytes] + mpiStats[r].recvs[bytes];
					if (packed != bytes) tr += mpiStats[r].gets[packed] + mpiStats[r].recvs[packed];
					// blocks copied within the process after a dictionary look-up also count
					if (v[2] < tr || (nThreads == 1 && v[2] != tr)) violation("wrong-counter", fmt("%s: mpi_transfers is %lu on process %d, but %lu blocks were received from other processes", w.c_str(), v[2], r, (unsigned long)tr));
				}
			}
			if (grid == "PASS_THROUGH" && (v[1] || v[2])) violation("wrong-counter", w + ": transfers counted for a pass-through grid");
			if (peersOf(g, r).size() == 1 && v[2]) violation("wrong-counter", w + ": MPI transfers counted without MPI communication");
			if (domainsOf(g, r) == 1 && v[1]) violation("wrong-counter", w + ": NUMA transfers counted with one NUMA domain");
		}
		probe("counter_checks");
	}
}

static bool gridOk(GridDef &g, int level)
{
	for (int m : membersOf(g.comm)) {
		GridRt &x = g.rt[m];
		if (x.dead || !x.created) return false;
		auto it = x.res.find(level);
		if (it != x.res.end()) for (auto &y : it->second) if (y.second) return false;
	}
	return true;
}

// full grids: every cell was read once per group of communicating processes, the file is closed
static void checkLedger(GridDef &g, int level)
{
	if (g.param("GRID", "FULL", 0) != "FULL" || !gridOk(g, level) || anyFault()) return;
	const FileDef &f = files[g.levelFile[level]];
	if (!usesFileAlone(f.name)) return;
	std::vector<int> mem = membersOf(g.comm);
	std::set<int> seen;
	for (int m : mem) {
		if (seen.count(m)) continue;
		std::vector<int> peers = peersOf(g, m);
		for (int p : peers) seen.insert(p);
		for (size_t c = 0; c < f.cells(); c++) {
			uint64_t n = 0;
			for (int p : peers) { NcLedger &l = ncLedger(p, f.name); if (c < l.cells.size()) n += l.cells[c]; }
			if (n != 1) violation("file-ledger", fmt("%s: cell %zu was read %lu times by the %zu cooperating processes", where(g, level).c_str(), c, (unsigned long)n, peers.size()));
		}
	}
	for (int m : mem) { NcLedger &l = ncLedger(m, f.name); if (l.opens != l.closes) violation("file-ledger", fmt("%s: process %d still has the file of a full grid open", where(g, level).c_str(), m)); }
	probe("ledger_checks");
}

// resources at a time when no operation is in progress; memory of grids that are still open does not count
struct Snap { size_t allocs = 0; std::vector<std::map<std::string, long>> v; std::set<std::string> open; };
static std::vector<Snap> snaps;
static void snapshot()
{
	Snap s; s.v.resize(numRanks); s.allocs = allocs.size();
	std::set<unsigned> openTags;
	for (auto &g : grids) for (int r = 0; r < numRanks; r++) {
		GridRt &x = g.second.rt[r];
		if (x.created && !x.closed) { openTags.insert(g.second.tag); s.open.insert(g.first + fmt("/%d/%zu", r, x.res.size())); }
	}
	for (int r = 0; r < numRanks; r++) {
		auto &m = s.v[r];
		for (auto &a : allocs) if (a.live && a.rank == r && !openTags.count(a.tag)) m["memory blocks"]++;
		m["thread keys"] = keys[r].liveCount();
		MpiLive l = mpiLive(r);
		m["communicators"] = l.comms; m["windows"] = l.wins; m["MPI data types"] = l.types; m["MPI groups"] = l.groups; m["MPI requests"] = l.requests;
		m["open files"] = ncOpen(r); m["library threads"] = liveThreads(r);
	}
	if (!snaps.empty() && snaps.back().open == s.open) {
		for (int r = 0; r < numRanks; r++) for (auto &x : s.v[r]) {
			long old = snaps.back().v[r][x.first];
			if (x.second <= old) continue;
			if (x.first == "memory blocks") for (size_t i = snaps.back().allocs; i < allocs.size(); i++) if (allocs[i].live && allocs[i].rank == r && !openTags.count(allocs[i].tag)) trace("still allocated: %zu bytes (%s), allocated for grid %u", allocs[i].size, allocs[i].kind, allocs[i].tag);
			violation("leak", fmt("process %d: %ld %s after opening and closing, %ld before", r, x.second, x.first.c_str(), old));
		}
		probe("leak_checks");
	}
	snaps.push_back(s);
}

static std::map<std::pair<int, int>, int> nlrResult;

static void run(int r, int t)
{
	const Glue *l = glue[r];
	for (int pc = 0; pc < (int)prog.size(); pc++) {
		cur->progLine = pc;
		cur->op.clear(); cur->tag = 0;
		Args a(prog[pc]); const std::string &c = a.s(0);
		if (c == "tsync") { appBarrier(pc, r, nThreads); continue; }
		if (c == "gsync") { appBarrier(pc, -1, nThreads * numRanks); continue; }
		if (c == "drain") { appBarrier(pc, -1, nThreads * numRanks); block(quiet, "quiet network"); appBarrier(pc + 100000, -1, nThreads * numRanks); continue; }
		if (c == "snapshot") {
			appBarrier(pc, -1, nThreads * numRanks);
			if (r == 0 && t == 0) { block(quiet, "quiet network"); snapshot(); }
			appBarrier(pc + 100000, -1, nThreads * numRanks); continue;
		}
		if (c == "arm") { appBarrier(pc, -1, nThreads * numRanks); faultsArmed = true; continue; }
		if (c == "disarm") { appBarrier(pc, -1, nThreads * numRanks); faultsArmed = false; continue; }
		if (c == "startcomm") { // startcomm api cpu comm expect
			if (t == 0 && isMember(a.s(3), r)) {
				cur->op = prog[pc]; int e; void *cm = commOf(a.s(3), r);
				{ Call k; e = l->startComm(a.i(1), a.i(2), cm); }
				int want = a.has("expect") ? a.geti("expect", 0) : 0;
				if (!anyFault() && e != want) violation("comm-thread", fmt("starting the communication thread returns %d instead of %d", e, want));
				if (anyFault() && e == 0 && liveThreads(r) < 1) violation("comm-thread", "starting the communication thread reports success but no thread runs");
				// pinning
				if (e == 0) {
					commStarted[r] = true;
					int cpu = a.i(2), n = platform.cpus, target = cpu < 0 ? n + cpu : cpu;
					bool valid = target >= 0 && target < n;
					for (Fiber *f : fibers) if (f->rank == r && !f->net && !f->done && f->cfn) {
						if (valid && !anyFault() && (!f->pinned || f->affinity != std::set<int>{target})) violation("comm-thread", fmt("the communication thread is not pinned to CPU %d (requested %d of %d CPUs)", target, cpu, n));
						if (!valid && f->pinned && f->affinity.size() == 1) violation("comm-thread", fmt("the communication thread is pinned although CPU %d does not exist", cpu));
					}
				}
			}
			continue;
		}
		if (c == "stopcomm") {
			if (t == 0 && isMember(a.s(2), r) && commStarted[r]) {
				cur->op = prog[pc];
				commStarted[r] = false;
				{ Call k; l->stopComm(a.i(1)); }
				if (liveThreads(r)) violation("comm-thread", "the communication thread still runs after it was stopped");
			}
			continue;
		}
		if (c == "nlr") { // nlr api comm
			if (t == a.geti("by", 0) && isMember(a.s(2), r)) {
				cur->op = prog[pc]; void *cm = commOf(a.s(2), r); int x;
				int before = mpiLive(r).comms;
				{ Call k; x = l->nodeLocalRank(a.i(1), cm); }
				extern const std::string &mpiProcName(int);
				int want = 0;
				for (int m : a.s(2) == "self" ? std::vector<int>{r} : membersOf(a.s(2))) { if (m == r) break; if (mpiProcName(m) == mpiProcName(r)) want++; }
				if (x != want) violation("node-local-rank", fmt("process %d gets node-local rank %d instead of %d", r, x, want));
				if (!a.geti("conc", 0) && mpiLive(r).comms != before) violation("leak", "nodeLocalRank leaves a communicator behind");
				probe("node_local_ranks");
			}
			continue;
		}
		if (c == "gapp" || c == "") continue;
		// the remaining lines name a grid
		std::string gn = c == "read" || c == "meta" ? a.s(3) : a.s(1);
		auto gi = grids.find(gn);
		if (gi == grids.end()) continue;
		GridDef &g = gi->second;
		if (!isMember(g.comm, r)) continue;
		GridRt &rt = g.rt[r];
		cur->tag = g.tag;
		if (c == "create") {
			int by = a.geti("by", 0);
			if (t == by) {
				cur->op = prog[pc];
				{ Call k; rt.h = l->create(g.api, g.kind, g.type, g.stypes.size(), g.slen.data(), g.sdis.data(), g.stypes.data()); }
				int e = 0;
				void *cm = g.comm == "none" || l->noMpi ? nullptr : commOf(g.comm, r);
				if (cm) { Call k; e = l->setComm(g.api, rt.h, cm); }
				if (e) { if (!anyFault()) violation("open-error", fmt("setComm fails with %d", e)); rt.dead = true; }
				{ Call k; e = l->setThreads(g.api, rt.h, g.threads); }
				if (e) { if (!anyFault()) violation("open-error", fmt("setThreads fails with %d", e)); rt.dead = true; }
				for (auto &p : g.params) { Call k; l->setParam(g.api, rt.h, std::get<1>(p).c_str(), std::get<2>(p).c_str(), std::get<0>(p)); }
				rt.created = true;
			} else if (g.has(t)) block([&rt] { return rt.created; }, "application: creation of the grid");
			continue;
		}
		if (!rt.created || rt.closed) { if (!g.has(t) || !(c == "open" || c == "read" || c == "meta")) { if (c != "close") continue; } }
		if (c == "open") { // open g level file expect=
			int level = a.i(2); const std::string file = a.s(3);
			if (!g.has(t) || rt.closed) continue;
			bool dead = false; for (int m : membersOf(g.comm)) if (g.rt[m].dead) dead = true;
			if (dead) continue;
			if (a.geti("retry", 0)) { // only if the level could not be opened by any process
				static std::map<int, bool> decided;
				if (!decided.count(pc)) { bool any = false; for (int m : membersOf(g.comm)) { if (!g.rt[m].created) any = true; for (auto &x : g.rt[m].res[level]) if (!x.second) any = true; } decided[pc] = !any; }
				if (!decided[pc]) continue;
				probe("open_retried_after_failure");
			}
			cur->op = prog[pc];
			int e;
			rt.res[level].erase(t);
			rt.openLine[{level, t}] = pc;
			{ Call k; e = l->open(g.api, rt.h, file.c_str(), level); }
			rt.res[level][t] = e;
			trace("open returns %d", e);
			hashEvent(0x0F000000u ^ e << 8 ^ r << 4 ^ t);
			long want = a.geti("expect", 0); // 0 success, -1: any error, >0: this error
			if (!anyFault()) {
				if (want == 0 && e) violation("open-error", fmt("%s: open fails with error %d on process %d thread %d", where(g, level).c_str(), e, r, t));
				if (want != 0 && !e) violation("open-error", fmt("%s: open succeeds on process %d thread %d although it has to fail", where(g, level).c_str(), r, t));
				if (want > 0 && e != want) violation("open-error", fmt("%s: open returns error %d instead of %ld", where(g, level).c_str(), e, want));
			} else {
				for (auto &x : rt.res[level]) if ((x.second == 0) != (e == 0)) violation("open-error", fmt("%s: open returns %d on thread %d, but %d on thread %d of process %d", where(g, level).c_str(), e, t, x.second, x.first, r));
			}
			probe(e ? "opens_failed" : "opens");
			if (e == 0) { int rest = 0; for (int x = g.from; x < g.from + g.threads; x++) rest += !rt.res[level].count(x); if (rest) probe("read_while_open_pending"); }
			continue;
		}
		if (c == "read") { // read r t g level as u... max=
			if (a.i(1) != r || a.i(2) != t || rt.closed || !g.has(t)) continue;
			int level = a.i(4);
			auto it = rt.res.find(level);
			if (it == rt.res.end() || !it->second.count(t) || it->second[t]) continue;
			bool bad = false; // another process could not open: no collective use possible
			for (int m : membersOf(g.comm)) { if (g.rt[m].dead) bad = true; if (g.rt[m].res.count(level)) for (auto &x : g.rt[m].res[level]) if (x.second) bad = true; }
			if (bad) continue;
			cur->op = prog[pc];
			std::vector<double> u; for (size_t i = 6; i < a.pos.size(); i++) u.push_back(num(a.pos[i]));
			if (u.size() < files[g.levelFile[level]].len.size()) continue;
			doRead(g, rt, r, t, level, a.i(5), u, a.geti("max", -1));
			continue;
		}
		if (c == "meta") { // meta r t g level
			if (a.i(1) != r || a.i(2) != t || rt.closed || !g.has(t)) continue;
			int level = a.i(4);
			auto it = rt.res.find(level);
			if (it == rt.res.end() || !it->second.count(t) || it->second[t]) continue;
			cur->op = prog[pc];
			checkMeta(g, rt, r, level);
			continue;
		}
		if (c == "counters") {
			// quiescent on all processes
			int n = nThreads * (int)membersOf(g.comm).size();
			appBarrier(pc, -1, n);
			cur->op = prog[pc];
			if (t == 0 && !rt.closed && rt.created) checkCounters(g, rt, r);
			appBarrier(pc + 100000, -1, n);
			continue;
		}
		if (c == "ledger") {
			int n = nThreads * (int)membersOf(g.comm).size();
			appBarrier(pc, -1, n);
			if (t == 0 && r == membersOf(g.comm)[0]) for (auto &lv : g.levelFile) checkLedger(g, lv.first);
			appBarrier(pc + 100000, -1, n);
			continue;
		}
		if (c == "close") { // close g by=t
			int by = a.geti("by", 0);
			if (!g.has(t) && t != by) continue;
			// the application's threads are done with the grid
			std::set<int> part; for (int i = 0; i < g.threads; i++) part.insert(g.from + i); part.insert(by);
			appBarrier(pc, r, part.size());
			if (t == by && rt.created && !rt.closed) {
				cur->op = prog[pc];
				{ Call k; l->close(g.api, rt.h); }
				rt.closed = true;
				probe("closes");
			}
			continue;
		}
	}
	cur->op.clear();
	cur->progLine = -1;
}

void runScenario(const Scenario &s)
{
	cfg = s.cfg;
	nThreads = 1; numRanks = 1; nNodes = 1;
	files.clear(); grids.clear(); commDefs.clear(); prog.clear(); place.clear(); arrivals.clear(); snaps.clear(); ncFiles.clear(); ncReset();
	std::vector<std::string> proc;
	std::vector<Args> ls; for (auto &l : s.lines) ls.push_back(Args(l));
	platform = Platform(); platform.cpuNode.assign(platform.cpus, 0);
	for (auto &a : ls) {
		if (a.s(0) == "ranks") numRanks = a.i(1);
		else if (a.s(0) == "threads") nThreads = a.i(1);
		else if (a.s(0) == "nodes") { platform.cpuNode.clear(); for (size_t i = 1; i < a.pos.size(); i++) platform.cpuNode.push_back(a.i(i)); platform.cpus = platform.cpuNode.size(); }
	}
	proc.assign(numRanks, "node0");
	place.assign(numRanks, {});
	for (auto &p : place) for (int t = 0; t < nThreads; t++) p.push_back(t % platform.cpus);
	faultPlan.clear();
	for (auto &f : s.faults) { Args a(f); int k = -1; for (int i = 0; i < F_PLANNED_NUM; i++) if (a.s(1) == faultName[i]) k = i; if (k >= 0) faultPlan.push_back(FaultPlan{k, a.i(2), a.i(3), a.i(4), a.i(5), {}}); }
	resetRun();
	resetPlatform();
	if (!s.comp.empty()) mpiSerial = false;
	for (auto &a : ls) {
		if (a.s(0) == "proc") { if (a.i(1) < numRanks) proc[a.i(1)] = a.s(2); }
		else if (a.s(0) == "place") { if (a.i(1) < numRanks && a.i(2) < nThreads && a.i(3) < platform.cpus) place[a.i(1)][a.i(2)] = a.i(3); }
	}
	mpiInit(numRanks, proc);
	shr->faults[F_FILL]++; // fresh memory holds a seeded pattern
	if (!s.comp.empty()) {
		for (auto &a : ls) {
			if (a.s(0) == "file") defFile(a);
			else if (a.s(0) == "comm") { std::vector<int> m; for (size_t i = 2; i < a.pos.size(); i++) if (a.i(i) < numRanks) m.push_back(a.i(i)); commDefs[a.s(1)] = CommDef{mpiMakeComm(m), m}; }
		}
		compState.clear(); compThreads = nThreads;
		std::vector<const char *> p; for (auto &l : s.lines) p.push_back(l.c_str());
		for (int r = 0; r < numRanks; r++) {
			CompStart st = (CompStart)libSymbol(s.variant + "." + s.comp, r, "comp_start");
			mpiSerial = ((int (*)())libSymbol(s.variant + "." + s.comp, r, "comp_serial"))();
			CompScenario cs{r, numRanks, (int)p.size(), p.data()};
			st(&cs);
		}
		onAbort = [](const std::string &w) { if (!anyFault()) violation("abort", "the library stops the program: " + w); probe("stopped_on_fault"); };
		runAll();
		if (!anyFault()) mpiFinish(true);
		shr->finished = 1;
		return;
	}
	for (auto &a : ls) {
		const std::string &c = a.s(0);
		if (c == "file") defFile(a);
		else if (c == "comm") { std::vector<int> m; for (size_t i = 2; i < a.pos.size(); i++) if (a.i(i) < numRanks) m.push_back(a.i(i)); commDefs[a.s(1)] = CommDef{mpiMakeComm(m), m}; }
		else if (c == "grid") defGrid(a);
		else if (c == "param") { auto it = grids.find(a.s(1)); if (it != grids.end()) it->second.params.push_back({a.i(2), a.s(3), a.s(4)}); }
	}
	glue.clear(); 
	for (int r = 0; r < numRanks; r++) glue.push_back(((const Glue *(*)())libSymbol(s.variant, r, "sim_glue"))());
	mpiSerial = glue[0]->threadsafeMpi && !glue[0]->noMpi;
	static const std::set<std::string> setup = {"ranks", "threads", "nodes", "proc", "place", "file", "comm", "grid", "param"};
	for (size_t i = 0; i < s.lines.size(); i++) if (!setup.count(ls[i].s(0))) {
		prog.push_back(s.lines[i]);
		if (ls[i].s(0) == "open") { auto it = grids.find(ls[i].s(1)); if (it != grids.end() && files.count(ls[i].s(3))) it->second.levelFile[ls[i].i(2)] = ls[i].s(3); }
	}
	for (auto &g : grids) { if (g.second.from >= nThreads) g.second.from = 0; if (g.second.from + g.second.threads > nThreads) g.second.threads = nThreads - g.second.from; }
	onAbort = [](const std::string &w) {
		if (!anyFault()) violation("abort", "the library stops the program: " + w);
		probe("stopped_on_fault");
	};
	for (int r = 0; r < numRanks; r++)
		for (int t = 0; t < nThreads; t++) {
			Fiber *f = spawn(r, fmt("p%d.t%d", r, t), [r, t] { run(r, t); });
			f->thread = t; f->cpu = place[r][t];
		}
	runAll();
	if (!anyFault()) mpiFinish(true);
	shr->finished = 1;
}
}
