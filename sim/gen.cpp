// Scenario generator: everything a seed decides before a run starts.
#include "scen.hpp"
#include <algorithm>
#include <cmath>

namespace sim {
typedef std::string S;

static uint64_t hashStr(const S &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct GFile { S name, line, var = "z"; std::vector<size_t> dims; int type = 3, n = 1; bool user = false; S fields; int big = 0; size_t cells() const { size_t c = 1; for (size_t d : dims) c *= d; return c; } };
struct GGrid {
	S name, comm = "none", grid = "FULL", mpi = "WINDOW", numa = "ON"; int api = 0, kind = 0, type = 3, threads = 1, from = 0; S fields; bool vertex = false;
	bool vset = false, tiny = false; int cacheSize = 0; S var = "z";
	std::map<int, int> levels;              // level -> file index
	std::map<int, std::vector<int>> bs;     // level -> block sizes (API order)
};

struct Gen {
	Rng r; Scenario &s; bool thorough; S only;
	std::vector<S> setup, prog;
	int ranks = 1, threads = 1, nNodes = 1, cpus = 4;
	std::vector<int> nodes;
	std::vector<GFile> files; std::vector<GGrid> grids;
	int big = 0; // size of the files: 0 small, 1 some thousand cells, 2 larger than memory
	Gen(Scenario &sc, const S &prop, uint64_t seed, bool th, const S &o) : s(sc), thorough(th), only(o) { r.seed(seed ^ hashStr(prop)); }

	int R(int a, int b) { return r.range(a, b); }
	bool C(double p) { return r.chance(p); }
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
	S pickS(std::initializer_list<const char *> l) { return *(l.begin() + r.below(l.size())); }
	void P(const S &l) { prog.push_back(l); }

	// ---- how the run is scheduled ----
	void schedule()
	{
		RunCfg &c = s.cfg; c = RunCfg();
		double m = r.unit();
		c.mode = m < 0.40 ? 0 : m < 0.70 ? 1 : m < 0.92 ? 2 : 3;
		c.pMem = pick({0.0005, 0.003, 0.02, 0.1, 0.3});
		c.pSync = pick({0.02, 0.1, 0.3, 0.7});
		c.pctDepth = R(1, 8);
		c.pctLen = pick<uint64_t>({500, 2000, 8000, 30000, 100000});
		if (C(0.25)) { c.stallFiber = R(0, ranks * threads + 2); c.stallFrom = r.below(pick({200, 3000, 20000})); c.stallLen = pick<uint64_t>({300, 3000, 30000}); }
		c.netWeight = pick({0.05, 0.3, 1.0, 3.0});
		c.pEager = pick({0.0, 0.2, 0.6, 1.0});
		c.pSpur = C(0.4) ? pick({0.05, 0.3, 0.8}) : 0;
		c.pLazy = pick({0.0, 0.5, 1.0});
		c.pRma = pick({0.1, 0.5, 0.9});
		c.pNet = pick({0.1, 0.5, 0.9});
		c.pRand = pick({0.3, 0.7, 1.0});
		c.fill = pick({0xCB, 0x00, 0xFF, 0x01, 0x5A});
		c.fairAfter = 600000; c.maxSteps = 3000000;
	}

	// ---- machine ----
	void machine(int rk, int th, int maxNodes = 3)
	{
		ranks = rk; threads = th;
		nNodes = std::min(th, R(1, maxNodes));
		if (nNodes < 2 && th > 1 && maxNodes > 1 && C(0.5)) nNodes = 2;
		cpus = std::max({4, nNodes * 2, th});
		int a = pick({0, 0, 0, 1, 3}), st = pick({1, 1, 1, 2});
		nodes.clear(); bool inter = C(0.5);
		for (int i = 0; i < cpus; i++) nodes.push_back(a + st * (inter ? i % nNodes : i * nNodes / cpus));
		setup.push_back(fmt("ranks %d", ranks)); setup.push_back(fmt("threads %d", threads));
		S n = "nodes"; for (int x : nodes) n += fmt(" %d", x); setup.push_back(n);
		std::vector<int> nodeNo; for (int x : nodes) if (std::find(nodeNo.begin(), nodeNo.end(), x) == nodeNo.end()) nodeNo.push_back(x);
		for (int k = 0; k < ranks; k++) {
			setup.push_back(fmt("proc %d %s", k, C(0.5) ? "alpha" : fmt("node%d", R(0, 2)).c_str()));
			// the number of threads' domains is the same in all processes: the domains of the threads are a permutation
			std::vector<int> dom; for (int t = 0; t < threads; t++) dom.push_back(t < nNodes ? t : R(0, nNodes - 1));
			for (int i = threads - 1; i > 0; i--) std::swap(dom[i], dom[R(0, i)]);
			for (int t = 0; t < threads; t++) {
				std::vector<int> c; for (int i = 0; i < cpus; i++) if (nodes[i] == nodeNo[dom[t]]) c.push_back(i);
				setup.push_back(fmt("place %d %d %d", k, t, c[r.below(c.size())]));
			}
		}
	}

	// ---- data ----
	// kind/type of the grid that will use it
	int newFile(int kind, int type, const S &fields, size_t maxCells, int nd = 0, const S &var = "z", bool missing = false, const GFile *like = nullptr)
	{
		GFile f; f.name = fmt("f%zu", files.size()); f.var = var; f.big = big;
		if (!nd) nd = pick({1, 1, 2, 2, 2, 3, 3, 4});
		for (;;) {
			f.dims.clear();
			for (int i = 0; i < nd; i++) f.dims.push_back(C(0.1) ? 1 : R(2, nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 6 : 4));
			if (big == 1) for (size_t &x : f.dims) { x = nd == 1 ? R(65, 20000) : nd == 2 ? R(60, 200) : nd == 3 ? R(15, 40) : R(5, 12); if (C(0.05)) x = 1; }
			if (big == 2) for (size_t &x : f.dims) { x = nd == 1 ? pick<size_t>({3000000000u, 1u << 31, 1000000007u, 10000000000ull}) + R(0, 999) : nd == 2 ? R(30000, 200000) : nd == 3 ? R(1000, 5000) : R(150, 600); if (C(0.05)) x = 1; }
			if (big ? f.cells() >= 2 : f.cells() <= maxCells && f.cells() >= 2) break;
		}
		f.type = type;
		if (kind == 1) { f.n = R(1, 4); f.user = f.n > 1 || C(0.3); if (like) { f.n = like->n; f.user = like->user; } }
		else if (kind == 2) f.fields = fields;
		else if (C(0.3)) f.type = type == 0 ? 0 : pick({1, 2, 3, 4});
		S d, c; for (size_t i = 0; i < f.dims.size(); i++) d += fmt(i ? ",%zu" : "%zu", f.dims[i]);
		for (size_t i = 0; i < f.dims.size(); i++) { if (i) c += ","; if (C(0.35)) c += "-"; else c += fmt("%.10g:%.10g", pick({0.0, -3.0, 10.0, 0.5, 4512345.7}), pick({1.0, 0.25, 2.0, 10.0, -1.0, -0.5, 0.1, -0.3, 0.001})); }
		double base = 1 + files.size() * (f.cells() * f.n > 100 || type == 0 ? 7 : 1000); bool fl = f.type >= 3 && type >= 3;
		f.line = fmt("file %s type=%d n=%d user=%d dims=%s coords=%s var=%s base=%g frac=%g neg=%d", f.name.c_str(), f.type, f.n, (int)f.user, d.c_str(), c.c_str(), var.c_str(), base, fl && C(0.5) ? 0.5 : 0.0, type == 0 || f.type == 0 ? 0 : (int)C(0.3));
		if (kind == 2) f.line += " fields=" + f.fields;
		if (big) f.line += " big=1";
		if (missing) f.line += " missing=1";
		setup.push_back(f.line);
		files.push_back(f); return files.size() - 1;
	}
	S structFields() { S x; int k = R(1, 3); for (int i = 0; i < k; i++) x += fmt("%s%d:%d", i ? "," : "", R(0, 4), R(1, 3)); return x; }

	// size of a structure (natural alignment), end of its last field
	static int structSize(const S &fl, int *end = nullptr)
	{
		static const int w[] = {1, 4, 8, 4, 8}; int o = 0, al = 1;
		for (auto &x : split(fl, ',')) { int z = w[x[0] - '0']; al = std::max(al, z); o = (o + z - 1) / z * z + z * atoi(x.c_str() + 2); }
		if (end) *end = o;
		return (o + al - 1) / al * al;
	}

	GGrid &newGrid(const S &grid, const S &mpi, const S &comm, int maxApi = 2)
	{
		GGrid g; g.name = fmt("g%zu", grids.size()); g.grid = grid; g.mpi = mpi; g.comm = comm;
		g.api = R(0, maxApi); double k = r.unit(); g.kind = k < 0.65 ? 0 : k < 0.85 ? 1 : 2; g.type = R(0, 4);
		if (g.api == 2 && g.kind == 2) g.kind = 0;
		if (g.kind == 2) g.fields = structFields();
		g.threads = threads; g.vertex = C(0.25);
		g.numa = pickS({"ON", "ON", "ON", "OFF", "CACHE"});
		grids.push_back(g); return grids.back();
	}
	S openLine(GGrid &g, int level) { return fmt("open %s %d %s", g.name.c_str(), level, files[g.levels[level]].name.c_str()); }
	int addLevel(GGrid &g, int level, size_t maxCells, int nd = 0)
	{
		GFile like; if (!g.levels.empty()) like = files[g.levels.begin()->second];
		int f = newFile(g.kind, g.type, g.fields, maxCells, nd, C(0.75) ? g.var : pickS({"z", "z", "depth"}), false, g.levels.empty() ? nullptr : &like);
		g.levels[level] = f; return f;
	}
	// cache size: 0 random
	void params(GGrid &g, int cacheSize = 0, int blockMax = 4)
	{
		auto par = [&](int l, const S &n, const S &v) { setup.push_back(fmt("param %s %d %s %s", g.name.c_str(), l, n.c_str(), v.c_str())); };
		if (g.grid != "FULL" || C(0.5)) par(0, "GRID", g.grid);
		if (g.mpi != "WINDOW" || C(0.5)) par(0, C(0.8) ? "MPI_COMMUNICATION" : "mpi_communication", g.mpi);
		if (g.numa != "ON" || C(0.3)) par(0, "NUMA_COMMUNICATION", g.numa);
		if (g.vertex) par(0, "VALUE_POSITION", "VERTEX_CENTERED");
		for (auto &l : g.levels) if (files[l.second].var != "z") par(l.first, "VARIABLE", files[l.second].var);
		int time = C(0.12) ? R(0, 3) : -1;
		if (time >= 0) par(0, C(0.8) ? "TIME_DIMENSION" : "time-dimension", fmt("%d", time));
		for (auto &l : g.levels) {
			GFile &f = files[l.second]; size_t nd = f.dims.size();
			bool bare = l.first > 0 && !cacheSize && !f.big && C(0.2); // no parameters of its own
			int whole = !bare && C(0.1), dflt = bare || C(0.05); std::vector<int> bs;
			for (size_t i = 0; i < nd; i++) {
				int b = whole ? -1 : dflt ? 0 : C(0.08) ? -1 : R(1, blockMax);
				// large files: not too many blocks for a directory, not too large blocks
				if (f.big) b = nd == 1 ? pick({0, R(40, 200), 64}) : nd == 2 ? pick({0, R(8, 40), 64}) : R(3, 9);
				if (f.big == 2 && (g.tiny || C(0.3))) b = g.tiny ? 1 : R(1, 20);
				if ((int)i == time && C(0.7)) b = 0;
				bs.push_back(b || (int)i != time ? b : 1);
				if (b || (!bare && C(0.3))) par(l.first, fmt("BLOCK_SIZE_%zu", i), fmt("%d", b));
			}
			g.bs[l.first] = bs;
			if ((g.grid == "CACHE" || g.numa == "CACHE") && !bare) {
				int cs = cacheSize ? cacheSize : C(0.8) ? R(1, 6) : R(7, 40);
				g.cacheSize = cs;
				par(l.first, "CACHE_SIZE", fmt("%d", cs));
				if (C(0.4)) par(l.first, "CACHE_HAND_SPREAD", fmt("%d", C(0.8) ? R(0, cs) : cs + R(0, 3)));
			}
		}
	}
	S gridLine(const GGrid &g) { S l = fmt("grid %s api=%d kind=%d type=%d comm=%s threads=%d", g.name.c_str(), g.api, g.kind, g.type, g.comm.c_str(), g.threads); if (g.from) l += fmt(" from=%d", g.from); if (g.kind == 2) l += " fields=" + g.fields; return l; }

	// ---- reads ----
	struct Pat { std::vector<size_t> hot; double pHot; bool sweep; };
	std::map<std::pair<S, int>, Pat> pats;
	Pat &pattern(GGrid &g, int level)
	{
		auto k = std::make_pair(g.name, level);
		if (!pats.count(k)) { Pat p; size_t n = files[g.levels[level]].cells(); int h = R(1, 4), big = files[g.levels[level]].big; for (int i = 0; i < h; i++) p.hot.push_back(i && big && g.tiny && C(0.5) ? (p.hot[0] + (1ul << 32)) % n : i && big && C(0.5) ? p.hot[0] ^ 1 : C(big ? 0.3 : 0) ? n - 1 - r.below(70) % n : r.below(n)); p.pHot = pick({0.0, 0.3, 0.7, 0.95}); p.sweep = C(0.15); pats[k] = p; }
		return pats[k];
	}
	S position(GGrid &g, int level, size_t cell, bool exact = false)
	{
		GFile &f = files[g.levels[level]]; size_t nd = f.dims.size(); std::vector<size_t> ix(nd);
		for (int i = nd - 1; i >= 0; i--) { ix[i] = cell % f.dims[i]; cell /= f.dims[i]; }
		S t;
		for (size_t i = 0; i < nd; i++) { // API order
			size_t d = nd - 1 - i; double x = ix[d];
			if (!exact) x += pick({0.0, 0.0, 0.3, -0.3, 0.4, -0.4});
			if (f.dims[d] == 1) x = pick({0.0, 0.0, 3.0, -7.0}) * 1.0;
			else if (g.vertex) x = std::min(std::max(x, 0.0), (double)f.dims[d] - 1);
			if (!exact && f.dims[d] > 1 && C(0.01)) { // outside of the grid: the nearest cell is at the border
				if (ix[d] == 0) x = pick({-0.7, -1.4, -5.0, -1e6});
				else if (ix[d] == f.dims[d] - 1) x = f.dims[d] - 1 + pick({0.7, 1.4, 5.0, 1e6});
			}
			t += fmt(" %.17g", x);
		}
		return t;
	}
	void readCell(int rk, int t, GGrid &g, int level, size_t cell, const S &extra = "")
	{
		if (cell >= files[g.levels[level]].cells()) cell = 0;
		int as = C(0.25) ? 5 : C(0.5) ? g.type : R(1, 4);
		P(fmt("read %d %d %s %d %d", rk, t, g.name.c_str(), level, as) + position(g, level, cell) + extra);
	}
	void reads(GGrid &g, int level, int n, const std::vector<int> &members)
	{
		Pat &p = pattern(g, level); size_t cells = files[g.levels[level]].cells();
		for (int rk : members) for (int t = g.from; t < g.from + g.threads; t++) {
			int k = C(0.15) ? R(0, 1) : R(std::max(1, n / 2), n); size_t at = r.below(cells);
			for (int i = 0; i < k; i++) {
				size_t c = p.sweep ? (at + i) % cells : C(p.pHot) ? p.hot[r.below(p.hot.size())] : r.below(cells);
				readCell(rk, t, g, level, c);
			}
		}
	}
	std::vector<int> all() { std::vector<int> v; for (int i = 0; i < ranks; i++) v.push_back(i); return v; }
	std::vector<int> membersOf(const GGrid &g)
	{
		if (g.comm.size() && g.comm[0] == 'c') return commMembers[g.comm];
		return all();
	}
	std::map<S, std::vector<int>> commMembers;
	S newComm(int minSize)
	{
		std::vector<int> m = all();
		for (int i = ranks - 1; i > 0; i--) std::swap(m[i], m[R(0, i)]);
		m.resize(std::max(minSize, R(minSize, ranks)));
		S n = fmt("c%zu", commMembers.size()), l = "comm " + n; for (int x : m) l += fmt(" %d", x);
		setup.push_back(l); commMembers[n] = m; return n;
	}
	S anyComm() { return ranks == 1 ? pickS({"none", "world", "self"}) : C(0.3) ? newComm(std::min(2, ranks)) : S("world"); }

	bool commThread = false; int commApi = 0;
	void startComm(int cpu = 12345)
	{
		commThread = true; commApi = R(0, 2);
		if (cpu == 12345) cpu = C(0.5) ? -1 : R(-2 * cpus, 2 * cpus);
		P(fmt("startcomm %d %d world", commApi, cpu)); P("tsync");
	}
	void stopComm() { if (commThread) { P("tsync"); P(fmt("stopcomm %d world", commApi)); } commThread = false; }
	void create(GGrid &g, int by = 0) { P(fmt("create %s by=%d", g.name.c_str(), by)); }
	void close(GGrid &g, int by = -1) { if (by < 0) by = g.from + R(0, g.threads - 1); P(fmt("close %s by=%d", g.name.c_str(), by)); }
	void finish()
	{
		for (auto &g : grids) { bool has = false; S gl = gridLine(g); for (auto &l : setup) if (l == gl) has = true; if (!has) setup.push_back(gl); }
		// definitions of grids precede their parameters
		std::vector<S> a, b; for (auto &l : setup) (l.compare(0, 6, "param ") == 0 ? b : a).push_back(l);
		s.lines = a; s.lines.insert(s.lines.end(), b.begin(), b.end()); s.lines.insert(s.lines.end(), prog.begin(), prog.end());
	}

	S mpiVariant(const S &mpi) { return mpi == "THREAD" ? pickS({"B", "C"}) : pickS({"A", "A", "B", "C"}); }

	// ---- properties ----
	void c01()
	{
		s.variant = pickS({"A", "D", "D", "B", "C"});
		machine(1, pick({1, 2, 2, 3, 3, 4}));
		schedule();
		int n = C(0.25) ? 2 : 1;
		for (int i = 0; i < n; i++) {
			GGrid &g = newGrid(pickS({"FULL", "CACHE", "CACHE", "CACHE", "PASS_THROUGH"}), pickS({"WINDOW", "OFF", "THREAD"}), anyComm());
			if (C(0.2)) g.threads = R(1, threads);
			if (C(0.2)) g.var = "bathymetry";
			big = g.grid == "FULL" ? C(0.03) : C(0.15) ? 2 : C(0.05);
			g.tiny = big == 2 && C(0.5); // more than 2^32 blocks
			addLevel(g, 0, 160); params(g);
		}
		for (auto &g : grids) { create(g); P(openLine(g, 0)); }
		for (auto &g : grids) reads(g, 0, 14, all());
		for (auto &g : grids) close(g);
	}
	// distributed grids: C02 .. C05
	void dist(const S &grid, const S &mpi)
	{
		s.variant = mpiVariant(mpi);
		int rk = C(0.06) ? R(5, 8) : pick({2, 2, 2, 3, 3, 4}); machine(rk, rk > 4 ? 1 : rk == 4 ? R(1, 2) : pick({1, 1, 2, 2, 3}));
		schedule();
		if (mpi == "THREAD") startComm();
		GGrid &g = newGrid(grid, mpi, anyComm());
		big = C(0.06);
		addLevel(g, 0, grid == "FULL" ? 60 : 80, big && grid == "FULL" ? 1 : pick({1, 1, 2, 3})); params(g);
		create(g); P(openLine(g, 0));
		if (C(0.3)) P("gsync");
		reads(g, 0, rk > 4 ? 5 : 10, membersOf(g));
		if (C(0.3)) { P("tsync"); reads(g, 0, 5, membersOf(g)); }
		close(g); stopComm();
	}
	// One process adds many levels while its threads read the ones that are already there
	void climb()
	{
		s.variant = pickS({"A", "D", "C"});
		machine(1, R(2, 4)); schedule();
		s.cfg.mode = pick({0, 0, 1, 2}); s.cfg.pMem = pick({0.02, 0.1, 0.3}); s.cfg.pctDepth = R(4, 20); s.cfg.pctLen = pick<uint64_t>({8000, 30000, 100000});
		GGrid &g = newGrid(pickS({"FULL", "CACHE", "PASS_THROUGH"}), "WINDOW", anyComm());
		int nl = R(3, 9), nd = pick({1, 1, 2}), at = 0; std::vector<int> lv;
		for (int i = 0; i < nl; i++) { lv.push_back(at); at += pick({1, 1, 1, 1, 2, 7, 16}); }
		for (int l : lv) addLevel(g, l, 12, nd);
		params(g); create(g);
		for (size_t i = 0; i < lv.size(); i++) {
			P(openLine(g, lv[i]));
			for (int t = 0; t < g.threads; t++) for (int k = pick({0, 0, 1, 4, 8}); k > 0; k--) { int l = lv[R(0, i)]; readCell(0, t, g, l, r.below(files[g.levels[l]].cells())); }
		}
		close(g);
	}
	void c06()
	{
		if (C(0.15)) { climb(); return; }
		int rk = pick({1, 1, 2, 2, 3}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "THREAD", "THREAD", "OFF"});
		s.variant = rk == 1 ? pickS({"A", "D", "C"}) : mpiVariant(mpi);
		machine(rk, rk == 1 ? R(1, 4) : R(1, 2)); schedule();
		if (mpi == "THREAD") startComm();
		GGrid &g = newGrid(pickS({"FULL", "CACHE", "PASS_THROUGH"}), mpi, anyComm());
		int nl = pick({2, 2, 3}), nd = pick({1, 2, 2, 3}); std::vector<int> lv; int at = 0;
		for (int i = 0; i < nl; i++) { lv.push_back(at); at += C(0.1) ? R(3, 12) : pick({1, 1, 1, 2}); }
		for (int l : lv) { big = rk == 1 && g.grid != "FULL" && C(0.1) ? 2 : 0; addLevel(g, l, 50, nd); }
		params(g);
		for (int i = nl - 1; i > 0; i--) std::swap(lv[i], lv[R(0, i)]);
		create(g);
		bool serial = C(0.3);
		for (size_t i = 0; i < lv.size(); i++) {
			P(openLine(g, lv[i]));
			if (serial) P("gsync");
			for (size_t k = 0; k <= i; k++) if (C(0.7)) reads(g, lv[k], 4, membersOf(g));
			for (int rk : membersOf(g)) for (int t = 0; t < g.threads; t++) if (C(0.4)) P(fmt("meta %d %d %s %d", rk, t, g.name.c_str(), lv[R(0, i)]));
			if (serial) P("gsync");
		}
		for (int l : lv) reads(g, l, 4, membersOf(g));
		close(g); stopComm();
	}
	void c07()
	{
		if (C(0.1)) { climb(); return; }
		int rk = pick({1, 1, 2, 2, 3}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "WINDOW", "THREAD", "OFF"});
		s.variant = rk == 1 ? pickS({"A", "D", "B"}) : mpiVariant(mpi);
		machine(rk, rk == 1 ? R(2, 4) : R(1, 3)); schedule();
		if (mpi == "THREAD") startComm();
		int n = pick({1, 1, 2});
		for (int i = 0; i < n; i++) { GGrid &g = newGrid(pickS({"FULL", "CACHE", "CACHE", "PASS_THROUGH"}), mpi, anyComm()); addLevel(g, 0, 60); params(g); }
		for (auto &g : grids) create(g);
		for (auto &g : grids) {
			P(openLine(g, 0));
			for (int k : membersOf(g)) for (int t = 0; t < g.threads; t++) if (C(0.6)) P(fmt("meta %d %d %s 0", k, t, g.name.c_str()));
			reads(g, 0, 3, membersOf(g));
		}
		for (auto &g : grids) close(g);
		stopComm();
	}
	void c13()
	{
		int rk = pick({1, 1, 2, 2, 3}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "THREAD", "OFF"});
		s.variant = rk == 1 ? pickS({"A", "D", "B"}) : mpi == "THREAD" ? "B" : pickS({"A", "B"});
		machine(rk, rk == 1 ? R(1, 4) : R(1, 2)); schedule();
		if (mpi == "THREAD") startComm();
		int n = pick({1, 1, 2});
		for (int i = 0; i < n; i++) {
			GGrid &g = newGrid(pickS({"FULL", "CACHE", "CACHE", "PASS_THROUGH"}), mpi, anyComm()); int nl = pick({1, 1, 2, 3}), nd = pick({1, 2, 3});
			for (int l = 0; l < nl; l++) addLevel(g, l, 70, nd);
			params(g, 0, pick({4, 8}));
		}
		for (auto &g : grids) { create(g); for (auto &l : g.levels) { P(openLine(g, l.first)); } }
		P("gsync");
		for (auto &g : grids) for (auto &l : g.levels) reads(g, l.first, 8, membersOf(g));
		for (auto &g : grids) P(fmt("counters %s", g.name.c_str()));
		if (C(0.5)) { for (auto &g : grids) for (auto &l : g.levels) if (C(0.6)) reads(g, l.first, 5, membersOf(g)); for (auto &g : grids) P(fmt("counters %s", g.name.c_str())); }
		for (auto &g : grids) close(g);
		stopComm();
	}
	// expected failures and planned faults
	S faultLine(const char *k, int nth, int cnt, int rank, int thread) { return fmt("fault %s %d %d %d %d", k, nth, cnt, rank, thread); }
	void c14()
	{
		int rk = pick({1, 1, 2, 2, 3}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "WINDOW", "THREAD", "OFF"});
		s.variant = rk == 1 ? pickS({"A", "D", "B"}) : mpiVariant(mpi);
		machine(rk, R(1, rk == 1 ? 3 : 2)); schedule();
		bool threadRestart = mpi == "THREAD" && C(0.4);
		if (mpi == "THREAD" && !threadRestart) startComm();
		// an identical grid is opened and closed once before the first snapshot (one-time allocations)
		GGrid base; bool keep = C(0.4);
		if (keep) { GGrid &g = newGrid(pickS({"FULL", "CACHE", "PASS_THROUGH"}), mpi == "THREAD" ? "WINDOW" : mpi, anyComm()); addLevel(g, 0, 30); params(g); create(g); P(openLine(g, 0)); reads(g, 0, 2, membersOf(g)); }
		size_t first = grids.size();
		GGrid proto = newGrid(pickS({"FULL", "CACHE", "CACHE", "PASS_THROUGH"}), mpi, anyComm());
		int nl = pick({1, 1, 2}), nd = pick({1, 2}); for (int l = 0; l < nl; l++) addLevel(grids[first], l, 40, nd);
		// some opens fail: a missing file, variable or too many dimensions; or failing system, MPI or netCDF calls
		int failing = pick({0, 0, 0, 1, 1, 2}), bad = -1; S ex = "-1";
		if (failing == 1) {
			int what = R(0, 2);
			if (what == 2 && proto.kind == 0) { GFile x; x.name = fmt("f%zu", files.size()); x.dims = {2, 2, 2, 2, 2}; x.line = fmt("file %s type=3 n=1 user=0 dims=2,2,2,2,2 coords=-,-,-,-,- var=z base=1 frac=0 neg=0", x.name.c_str()); setup.push_back(x.line); files.push_back(x); bad = files.size() - 1; }
			else if (what == 1) { bad = newFile(proto.kind, proto.type, proto.fields, 20, 1, "other"); ex = "9"; }
			else bad = newFile(proto.kind, proto.type, proto.fields, 20, 1, "z", true);
		}
		if (failing == 2) {
			prog.insert(prog.begin(), "disarm");
			static const char *kinds[] = {"nc_open_error", "nc_inquire_error", "nc_read_error", "key_create_error", "mpi_alloc_error", "win_create_error", "comm_dup_error", "mpi_type_error", "getcpu_error", "numa_node_error", "setspecific_error"};
			for (int i = pick({1, 1, 2}); i > 0; i--) {
				S k = kinds[R(0, 10)]; bool often = k == "nc_inquire_error" || k == "nc_read_error";
				int nth = often ? R(1, 20) : R(1, 4), cnt = pick({1, 1, 2, 4}), th = C(0.7) ? -1 : R(0, threads - 1);
				// collective operations fail on all processes
				if (rk > 1) { th = -1; cnt = pick({1, 100}); if (often || k == "mpi_type_error") { nth = 1; cnt = 1000; } }
				s.faults.push_back(faultLine(k.c_str(), nth, cnt, -1, th));
			}
		}
		// the level whose open failed is opened again, with the same or with a good file
		bool twice = failing && C(0.3), retry = failing == 1 && C(0.4);
		if (retry) addLevel(grids[first], nl, 40, nd);
		params(grids[first]);
		std::vector<S> pl; for (auto &l : setup) if (l.compare(0, 9, "param " + proto.name + " ") == 0) pl.push_back(l);
		int cycles = R(2, 4);
		for (int c = 1; c < cycles; c++) { GGrid g = grids[first]; g.name = fmt("g%zu", grids.size()); for (auto l : pl) { l.replace(6, proto.name.size(), g.name); setup.push_back(l); } grids.push_back(g); }
		for (int c = 0; c < cycles; c++) {
			GGrid &g = grids[first + c];
			if (threadRestart) startComm();
			create(g);
			if (failing == 2) {
				// the first grid is used without faults
				if (c) P("arm");
				for (auto &l : g.levels) { P(openLine(g, l.first)); P("gsync"); }
				P("disarm");
				if (twice) for (auto &l : g.levels) { P("gsync"); P(openLine(g, l.first) + " retry=1"); }
				for (auto &l : g.levels) if (C(0.5)) reads(g, l.first, 4, membersOf(g));
			} else for (auto &l : g.levels) if (l.first < nl) { P(openLine(g, l.first)); if (C(0.5)) reads(g, l.first, 4, membersOf(g)); }
			if (failing == 1) {
				for (int i = 0; i <= (int)twice; i++) { P("gsync"); P(fmt("open %s %d %s expect=%s", g.name.c_str(), nl, files[bad].name.c_str(), ex.c_str())); }
				P("gsync");
				if (retry) P(openLine(g, nl));
				for (auto &l : g.levels) if (l.first < nl || retry) reads(g, l.first, 3, membersOf(g));
			}
			close(g, 0);
			if (threadRestart) stopComm();
			P("snapshot");
			if (keep && C(0.6)) reads(grids[0], 0, 2, membersOf(grids[0]));
		}
		if (keep) close(grids[0], 0);
		stopComm();
	}
	void c15()
	{
		int rk = pick({1, 1, 1, 2}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "THREAD", "OFF"});
		s.variant = rk == 1 ? pickS({"A", "D", "B"}) : mpiVariant(mpi);
		machine(rk, R(1, rk == 1 ? 4 : 2)); schedule();
		int mode = pick({0, 0, 1, 1, 1});
		bool noThread = rk > 1 && mpi == "THREAD" && mode == 0 && C(0.3);
		if (mpi == "THREAD" && !noThread) startComm();
		bool uneven = false;
		if (!noThread && mode == 0 && rk == 2 && threads > 1 && mpi != "OFF" && C(0.25)) {
			// one process has fewer NUMA domains than the other one
			int k = R(0, 1); S all;
			for (auto &l : setup) { auto w = split(l); if (w[0] == "place" && atoi(w[1].c_str()) == k) { if (all.empty()) all = w[3]; l = fmt("place %d %s %s", k, w[2].c_str(), all.c_str()); } }
			uneven = !evenDomains(threads);
		}
		bool other = C(0.5) && !uneven;
		if (other) { GGrid &g = newGrid(pickS({"FULL", "CACHE", "PASS_THROUGH"}), noThread ? "WINDOW" : mpi, anyComm()); if (noThread) { g.mpi = "OFF"; } addLevel(g, 0, 30); params(g); }
		size_t gi = grids.size();
		{ GGrid &g = newGrid(pickS({"FULL", "CACHE", "CACHE", "PASS_THROUGH"}), mpi, anyComm()); if (noThread) g.grid = pickS({"FULL", "CACHE"}); }
		bool early = other && C(0.5);
		if (mode == 0) { // failures without faults
			int what = noThread ? 9 : uneven ? 4 : pick({0, 1, 2, 3, 5, 6}); S ex = "-1";
			bool second = false;
			GGrid &g = grids[gi];
			int f;
			if (what == 0) { f = newFile(g.kind, g.type, g.fields, 20, 1, "z", true); ex = "8"; }
			else if (what == 1) { f = newFile(g.kind, g.type, g.fields, 20, 1, "other"); files[f].var = "z"; ex = "9"; }
			else if (what == 2) { // wrong size of the cell
				GFile x; x.name = fmt("f%zu", files.size()); x.dims = {4}; x.n = 3; x.user = true; x.type = 0;
				// (the element of basic grids is converted by the file library, it has no wrong size)
				g.kind = 1; if (g.api == 2) g.api = R(0, 1);
				if (g.type == 0) g.type = 3;
				x.n = pick({3, 5, 9, 17});
				x.line = fmt("file %s type=0 n=%d user=1 dims=4 coords=- var=z base=1 frac=0 neg=0", x.name.c_str(), x.n); setup.push_back(x.line); files.push_back(x); f = files.size() - 1;
			}
			else if (what == 3) { GFile x; x.name = fmt("f%zu", files.size()); x.dims = {2, 2, 2, 2, 2}; x.line = fmt("file %s type=3 n=1 user=0 dims=2,2,2,2,2 coords=-,-,-,-,- var=z base=1 frac=0 neg=0", x.name.c_str()); g.kind = 0; setup.push_back(x.line); files.push_back(x); f = files.size() - 1; ex = "11"; }
			else if (what == 5) { // a further level with elements of another size
				g.kind = pick({1, 1, 2}); if (g.api == 2) g.api = R(0, 1);
				if (g.kind == 2) g.fields = structFields();
				addLevel(g, 0, 20); GFile &a = files[g.levels[0]];
				second = true;
				if (g.kind == 1) {
					GFile like = a; do like.n = R(1, 6); while (like.n == a.n);
					like.user = like.n > 1; f = newFile(g.kind, g.type, g.fields, 20, 0, "z", false, &like); ex = "10";
				} else { S fl; do fl = structFields(); while (structSize(fl) == structSize(g.fields)); f = newFile(g.kind, g.type, fl, 20); ex = "10"; }
			}
			else if (what == 6) { // the structure is larger than the cells of the file
				g.kind = 2; if (g.api == 2) g.api = R(0, 1);
				g.fields = structFields(); S fl = g.fields; int end;
				if (C(0.7)) fl += fmt(",%d:%d", R(0, 4), R(1, 2));
				structSize(fl, &end); g.fields = fl;
				if (end < 2) { g.fields = "1:1"; end = 4; }
				int tries = 0; do fl = ++tries > 20 ? S("0:1") : structFields(); while (structSize(fl) >= end);
				f = newFile(g.kind, g.type, fl, 20);
			}
			else if (what == 4) { f = newFile(g.kind, g.type, g.fields, 20, 1); ex = "3"; g.grid = pickS({"FULL", "CACHE"}); g.numa = "ON"; }
			else { f = newFile(g.kind, g.type, g.fields, 20, 1); ex = "6"; }
			if (!second) g.levels[0] = f;
			params(g);
			if (other) { create(grids[0]); if (early) { P(openLine(grids[0], 0)); } }
			create(g);
			if (second) { P(openLine(g, 0)); if (C(0.5)) P("gsync"); }
			P(fmt("open %s %d %s expect=%s", g.name.c_str(), (int)second, files[f].name.c_str(), ex.c_str()));
			P("gsync");
			if (second) { reads(g, 0, 4, membersOf(g)); P("gsync"); }
			else if (C(0.3) && what != 9 && rk == 1) { P(fmt("open %s 0 %s expect=%s", g.name.c_str(), files[f].name.c_str(), ex.c_str())); P("gsync"); }
			if (other && !early) P(openLine(grids[0], 0));
			if (other) { P("gsync"); reads(grids[0], 0, 4, membersOf(grids[0])); }
			close(g);
			if (other) { reads(grids[0], 0, 4, membersOf(grids[0])); close(grids[0]); }
		} else {
			GGrid &g = grids[gi]; int nl = C(0.3) ? 2 : 1;
			for (int l = 0; l < nl; l++) addLevel(g, l, 40, 2);
			params(g);
			// faults are symmetric over the processes (collective operations fail on all processes)
			static const char *kinds[] = {"nc_open_error", "nc_inquire_error", "nc_read_error", "key_create_error", "mpi_alloc_error", "win_create_error", "comm_dup_error", "mpi_type_error", "getcpu_error", "numa_node_error", "setspecific_error"};
			int nf = pick({1, 1, 2});
			for (int i = 0; i < nf; i++) {
				const char *k = kinds[R(0, 10)]; S ks = k;
				int nth = ks == "nc_inquire_error" || ks == "nc_read_error" ? R(1, 20) : R(1, 4);
				int cnt = pick({1, 1, 2, 100}), th = C(0.7) ? -1 : R(0, threads - 1);
				if (ranks > 1) { th = -1; cnt = pick({1, 100}); if (ks == "nc_inquire_error" || ks == "nc_read_error" || ks == "mpi_type_error") { nth = 1; cnt = 1000; } if (g.grid == "FULL" && ks == "nc_read_error") { nth = 1; cnt = 1000; } }
				s.faults.push_back(faultLine(k, nth, cnt, -1, th));
			}
			if (other) { create(grids[0]); if (early) { P(openLine(grids[0], 0)); P("gsync"); reads(grids[0], 0, 2, membersOf(grids[0])); } }
			create(g);
			for (auto &l : g.levels) { P(openLine(g, l.first)); P("gsync"); }
			P("disarm");
			if (C(0.5)) for (auto &l : g.levels) { P("gsync"); P(openLine(g, l.first) + " retry=1"); }
			for (auto &l : g.levels) reads(g, l.first, 4, membersOf(g));
			if (other && !early) { P(openLine(grids[0], 0)); P("gsync"); }
			if (other) reads(grids[0], 0, 4, membersOf(grids[0]));
			P("gsync");
			close(g);
			if (other) { reads(grids[0], 0, 4, membersOf(grids[0])); P("gsync"); close(grids[0]); }
		}
		P("gsync");
		stopComm();
	}
	void c16()
	{
		int rk = pick({1, 1, 1, 2}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "THREAD", "OFF"});
		s.variant = rk == 1 ? pickS({"A", "D", "B"}) : mpiVariant(mpi);
		machine(rk, R(1, rk == 1 ? 3 : 2)); schedule();
		if (mpi == "THREAD") startComm();
		int n = pick({1, 1, 2});
		for (int i = 0; i < n; i++) { GGrid &g = newGrid(pickS({"FULL", "CACHE", "CACHE", "PASS_THROUGH"}), mpi, anyComm()); int nl = pick({1, 1, 2}), nd = R(1, 3); for (int l = 0; l < nl; l++) addLevel(g, l, 40, nd); params(g); }
		int nf = pick({1, 1, 2, 3});
		for (int i = 0; i < nf; i++) {
			const char *k = pick({"nc_open_error", "nc_inquire_error", "nc_read_error", "nc_read_error"});
			if (rk == 1) s.faults.push_back(faultLine(k, R(1, S(k) == "nc_open_error" ? 3 : 30), pick({1, 1, 2, 1000}), -1, C(0.7) ? -1 : R(0, threads - 1)));
			else s.faults.push_back(faultLine(k, S(k) == "nc_open_error" ? R(1, 3) : S(k) == "nc_inquire_error" ? 1 : R(1, 20), 1000, -1, -1));
		}
		for (auto &g : grids) { create(g); for (auto &l : g.levels) { P(openLine(g, l.first)); P("gsync"); } }
		for (auto &g : grids) for (auto &l : g.levels) reads(g, l.first, 6, membersOf(g));
		for (auto &g : grids) for (auto &l : g.levels) for (int t = 0; t < threads; t++) for (int k : membersOf(g)) if (C(0.4)) P(fmt("meta %d %d %s %d", k, t, g.name.c_str(), l.first));
		P("gsync");
		for (auto &g : grids) close(g);
		P("gsync");
		stopComm();
	}
	// all processes have the same number of NUMA domains if th threads use the grid
	bool evenDomains(int th, int from = 0)
	{
		std::set<size_t> n;
		for (int k = 0; k < ranks; k++) { std::set<int> d; for (int t = from; t < from + th; t++) d.insert(domain(k, t, false)); n.insert(d.size()); }
		return n.size() == 1;
	}
	// several grids used at the same time
	void multi(bool serialMpi, bool thread)
	{
		int rk = pick({1, 1, 2, 2, 3}); bool th = thread && !serialMpi && C(0.5);
		s.variant = serialMpi ? S("A") : th ? pickS({"B", "C"}) : pickS({"A", "A", "B", "C", "D"});
		if (s.variant == "D") rk = 1;
		machine(rk, R(1, rk == 1 ? 4 : rk == 2 ? 3 : 2)); schedule();
		if (th && s.variant != "D") startComm();
		int n = R(2, 3);
		// teams of threads that use their grids independently
		int split = threads > 1 && !commThread && (ranks == 1 || s.variant != "A") && C(0.4) ? R(1, threads - 1) : 0;
		for (int i = 0; i < n; i++) {
			S mpi = commThread ? pickS({"THREAD", "THREAD", "WINDOW", "OFF"}) : pickS({"WINDOW", "WINDOW", "OFF"});
			GGrid &g = newGrid(pickS({"FULL", "CACHE", "CACHE", "PASS_THROUGH"}), mpi, anyComm());
			if (split && i < 2) { g.from = i ? split : 0; g.threads = i ? threads - split : split; if (!evenDomains(g.threads, g.from)) { g.from = 0; g.threads = threads; split = 0; } }
			else if (C(0.2)) { g.threads = R(1, threads); if (!evenDomains(g.threads)) g.threads = threads; }
			// grids may share files
			if (i && C(0.4) && grids[0].levels.count(0)) { g.kind = grids[0].kind; g.type = grids[0].type; g.fields = grids[0].fields; if (g.kind == 2 && g.api == 2) g.api = 1; g.levels[0] = grids[0].levels[0]; }
			else { int nl = pick({1, 1, 1, 2}), nd = R(1, 3); for (int l = 0; l < nl; l++) addLevel(g, l, 40, nd); }
			params(g);
		}
		if (split) {
			for (auto &g : grids) { P("tsync"); create(g, g.from); }
			P("tsync");
			if (C(0.3) && s.variant != "D") for (int i = R(1, 2), by = R(0, threads - 1); i > 0; i--) P(fmt("nlr %d world by=%d conc=1", R(0, 2), by));
			for (auto &g : grids) { for (auto &l : g.levels) P(openLine(g, l.first)); if (C(0.8)) for (auto &l : g.levels) reads(g, l.first, 4, membersOf(g)); }
			for (auto &g : grids) { if (C(0.5)) for (auto &l : g.levels) reads(g, l.first, 4, membersOf(g)); close(g); }
			return;
		}
		std::vector<std::pair<double, std::pair<int, int>>> ev; // order of opens and closes
		for (int i = 0; i < n; i++) { double a = r.unit(), b = r.unit() + 0.3; if (b < a) b = a + 0.01; ev.push_back({a, {i, 0}}); ev.push_back({b, {i, 1}}); }
		std::sort(ev.begin(), ev.end());
		std::set<int> open;
		for (auto &e : ev) {
			GGrid &g = grids[e.second.first];
			// with serialised MPI calls the collective operations of different grids must not overlap
			if (s.variant == "A" && ranks > 1) P("gsync");
			if (e.second.second == 0) { P("tsync"); create(g, C(0.7) ? 0 : R(0, g.threads - 1)); for (auto &l : g.levels) P(openLine(g, l.first)); open.insert(e.second.first); }
			else { close(g); open.erase(e.second.first); }
			if (s.variant == "A" && ranks > 1) P("gsync");
			// (no communicator may be created from the world at the same time)
			if (C(0.1) && s.variant != "D") { P("tsync"); P(fmt("nlr %d world by=%d conc=1", R(0, 2), R(0, threads - 1))); }
			for (int o : open) for (auto &l : grids[o].levels) if (C(0.8)) reads(grids[o], l.first, 4, membersOf(grids[o]));
		}
		stopComm();
	}
	void c20()
	{
		s.variant = pickS({"A", "B", "C"});
		int rk = pick({2, 3, 4, 4, 5, 6, 8}); machine(rk, rk > 4 ? 1 : pick({1, 1, 2}), 2); schedule();
		// node names: colliding checksums are frequent in this set (see collisions below)
		std::vector<S> names; int nn = R(1, ranks);
		for (int i = 0; i < nn; i++) names.push_back(nodeName(i));
		std::vector<S> st; for (auto &l : setup) if (l.compare(0, 5, "proc ")) st.push_back(l);
		setup = st;
		for (int k = 0; k < ranks; k++) setup.push_back(fmt("proc %d %s", k, names[r.below(names.size())].c_str()));
		int n = R(1, 3);
		for (int i = 0; i < n; i++) {
			S c = pickS({"world", "world", "self", "new"}); if (c == "new") c = newComm(1);
			P(fmt("nlr %d %s", R(0, 2), c.c_str()));
			if (C(0.3)) P("gsync");
		}
	}
	std::vector<S> pool;
	S nodeName(int i)
	{
		if (pool.empty()) {
			int k = R(0, 3);
			// pairs of names with equal Adler-32 checksums, and long names with large checksums
			if (k == 0) pool = {"acaaca", "abcbba", "badabb", "aebdd"};
			else if (k == 1) for (int j = 0; j < 4; j++) pool.push_back(S(R(60, 120), 'z') + fmt("%d", j));
			else if (k == 2) { // x y z -> x+1 y-2 z+1 has the same checksum
				S b = "node-00m"; for (int j = 0; j < 4; j++) { S x = b; x[0] += j; x[1] -= 2 * j; x[2] += j; pool.push_back(x); }
			}
			else for (int j = 0; j < 4; j++) pool.push_back(fmt("cn%d.cluster", R(0, 9999)));
			// up to the longest name; equal parts before and after keep equal checksums
			S pre = C(0.5) ? S(pick({8, 16, 31, 32, 63, 64, 100, 127, 128, 180, R(1, 230)}), 'p') : "", post = C(0.3) ? S(R(1, 200), 's') : "";
			size_t most = 0; for (auto &x : pool) most = std::max(most, x.size());
			if (C(0.2)) pre.resize(255 - std::min<size_t>(most, 255), 'p'); // the longest possible name
			pre.resize(std::min(pre.size(), 255 - most)); post.resize(std::min(post.size(), 255 - most - pre.size()));
			for (auto &x : pool) x = pre + x + post;
		}
		return pool[i % pool.size()];
	}
	void c22()
	{
		int rk = pick({1, 1, 2, 2, 3}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "THREAD"});
		s.variant = rk == 1 ? pickS({"A", "D", "B"}) : mpiVariant(mpi);
		machine(rk, R(1, rk == 1 ? 4 : 3)); schedule();
		if (mpi == "THREAD") startComm();
		GGrid &g = newGrid("CACHE", mpi, rk == 1 ? anyComm() : S("world"));
		g.numa = pickS({"ON", "ON", "CACHE", "OFF"});
		bool ample = C(0.6);
		addLevel(g, 0, 60, pick({1, 2, 2, 3}));
		size_t before = setup.size();
		params(g, ample ? 64 : R(1, 4));
		(void)before;
		GFile &f = files[g.levels[0]];
		create(g); P(openLine(g, 0)); P("gsync");
		// sequential reads; the model knows which block each domain holds for certain
		std::vector<size_t> bs; size_t nd = f.dims.size();
		for (size_t i = 0; i < nd; i++) { int b = g.bs[0][nd - 1 - i]; bs.push_back(std::min<size_t>(f.dims[i], b == 0 ? 64 : b < 0 ? f.dims[i] : b)); }
		std::set<size_t> loaded; std::map<int, size_t> last; // domain -> block read last
		std::set<int> all; for (int k = 0; k < ranks; k++) for (int t = 0; t < threads; t++) all.insert(domain(k, t, g.numa == "OFF"));
		bool recorded = rk > 1 && all.size() <= 4; // the directory has room for four caches
		int n = R(6, 24); std::vector<size_t> hot; for (int i = pick({2, 4, 4}); i > 0; i--) hot.push_back(r.below(f.cells()));
		for (int i = 0; i < n; i++) {
			int k = R(0, ranks - 1), t = R(0, threads - 1); size_t cell = C(0.6) ? hot[r.below(hot.size())] : r.below(f.cells());
			size_t c = cell, b = 0, mul = 1; for (int d = (int)nd - 1; d >= 0; d--) { size_t x = c % f.dims[d] / bs[d]; c /= f.dims[d]; b += x * mul; mul *= (f.dims[d] + bs[d] - 1) / bs[d]; }
			int dom = domain(k, t, g.numa == "OFF");
			S ex;
			bool hit = ample ? loaded.count(b) : last.count(dom) && last[dom] == b;
			// another domain of the process, or another process, holds it for certain
			if (!ample && !hit) for (auto &x : last) if (x.second == b && (x.first / 16 == k || recorded)) hit = true;
			if (hit) ex = " max=0";
			readCell(k, t, g, 0, cell, ex);
			P("drain");
			loaded.insert(b); last[dom] = b;
		}
		P("counters " + g.name);
		close(g); stopComm();
	}
	int domain(int rk, int t, bool off)
	{
		if (off) return rk * 16;
		for (auto &l : setup) { auto w = split(l); if (w[0] == "place" && atoi(w[1].c_str()) == rk && atoi(w[2].c_str()) == t) return rk * 16 + nodes[atoi(w[3].c_str())]; }
		return rk * 16;
	}
	void c23()
	{
		int rk = pick({1, 1, 2, 2, 3, 4}); S mpi = rk == 1 ? "WINDOW" : pickS({"WINDOW", "THREAD", "OFF"});
		s.variant = rk == 1 ? pickS({"A", "D", "C"}) : mpiVariant(mpi);
		machine(rk, R(1, rk == 1 ? 4 : 2)); schedule();
		if (mpi == "THREAD") startComm();
		GGrid &g = newGrid("FULL", mpi, anyComm());
		int nl = pick({1, 1, 2}), nd = R(1, 4); for (int l = 0; l < nl; l++) addLevel(g, l, 60, nd);
		params(g);
		create(g);
		for (auto &l : g.levels) P(openLine(g, l.first));
		P("gsync"); P("ledger " + g.name);
		for (auto &l : g.levels) reads(g, l.first, 5, membersOf(g));
		P("gsync"); P("ledger " + g.name);
		close(g); stopComm();
	}

	// ---- component harnesses ----
	void comp(const char *name, std::initializer_list<const char *> variants) { s.variant = pickS(variants); s.comp = name; }
	void c08()
	{
		comp("comp_cache", {"A", "D"});
		machine(1, compThr(1)); schedule();
		int nm = pick({1, 1, 2, 3}), ids = R(2, 12), size = R(1, 9);
		for (int i = 0; i < nm; i++) { int sl = pick({1, 2, 2, 3, 3, 4, 5, 6, 8}); if (sl < threads && C(0.7)) sl = threads; int sp = C(0.5) ? -1 : C(0.8) ? R(0, sl) : sl + R(0, 3); setup.push_back(fmt("manager slots=%d size=%d spread=%d", sl, size, sp)); }
		std::vector<int> hot; for (int i = 0; i < 3; i++) hot.push_back(R(0, ids - 1));
		double pTry = pick({0.0, 0.2, 0.5}), pHot = pick({0.0, 0.5, 0.9}); bool sweep = C(0.2), far = C(0.2);
		int n = R(4, thorough ? 40 : 20);
		for (int i = 0; i < n; i++) for (int t = 0; t < threads; t++) {
			int id = sweep ? (i + t * 3) % ids : C(pHot) ? hot[r.below(3)] : R(0, ids - 1);
			if (far) id = id * 1009 + (id & 1) * 100000; // block numbers far apart
			int m = R(0, nm - 1);
			if (C(pTry)) P(fmt("op 0 %d try %d %d", t, m, id));
			else P(fmt("op 0 %d get %d %d%s hold=%d", t, m, id, nm > 1 && C(0.6) ? " copy" : " -", R(0, 4)));
		}
	}
	// number of threads of a component scenario
	int compThr(int least) { return C(0.12) ? R(5, 8) : std::max(least, pick({1, 2, 2, 3, 3, 4, 4})); }
	// whole-library stand-ins for harnesses
	void c08sys()
	{
		s.variant = pickS({"A", "D"}); machine(1, pick({1, 2, 3, 4})); schedule();
		GGrid &g = newGrid("CACHE", "WINDOW", anyComm()); addLevel(g, 0, 100); params(g);
		create(g); P(openLine(g, 0)); P("tsync"); reads(g, 0, 20, all()); close(g);
	}
	void c09sys(bool many)
	{
		s.variant = pickS({"A", "D"}); machine(1, C(0.1) ? R(5, 6) : pick({2, 3, 4, 4}), many ? 4 : 3); schedule();
		int n = R(1, 3);
		for (int i = 0; i < n; i++) { GGrid &g = newGrid(pickS({"FULL", "CACHE", "PASS_THROUGH"}), "WINDOW", anyComm()); if (many && C(0.3)) g.threads = R(1, threads); addLevel(g, 0, 40); params(g); }
		for (auto &g : grids) create(g);
		for (auto &g : grids) { P(openLine(g, 0)); reads(g, 0, 3, all()); }
		for (auto &g : grids) close(g);
	}
	void c10sys()
	{
		s.variant = pickS({"A", "B", "D"}); machine(1, pick({2, 3, 4}), 4); schedule();
		GGrid &g = newGrid(pickS({"FULL", "CACHE"}), "WINDOW", anyComm()); if (g.kind == 0) { g.kind = C(0.5) && g.api != 2 ? 2 : 1; if (g.kind == 2) g.fields = structFields(); }
		addLevel(g, 0, 40); params(g); create(g); P(openLine(g, 0)); reads(g, 0, 3, all()); close(g);
	}
	void c21sys()
	{
		s.variant = pickS({"A", "B", "D"}); machine(1, pick({1, 2, 3}), 2); schedule();
		int n = R(2, 5);
		for (int i = 0; i < n; i++) { GGrid &g = newGrid(pickS({"FULL", "CACHE", "PASS_THROUGH"}), "WINDOW", anyComm()); g.api = 2; if (g.kind == 2) g.kind = 0; addLevel(g, 0, 30); params(g); }
		for (auto &g : grids) { create(g, R(0, threads - 1)); if (C(0.7)) { P(openLine(g, 0)); reads(g, 0, 3, all()); } if (C(0.3)) close(g); }
	}
	void c09()
	{
		comp("comp_sync", {"A", "D"});
		machine(1, compThr(1)); schedule();
		if (C(0.3)) setup.push_back(fmt("objects %d", R(2, 3)));
		int n = R(2, thorough ? 24 : 12);
		for (int i = 0; i < n; i++) {
			S k = pickS({"barrier", "barrier", "phases", "bclong", "bcval"}), l = "op -1 -1 " + k;
			if (k[0] == 'b' && k[1] == 'a') { if (C(0.5)) l += fmt(" %d %d %d", R(0, 6), R(0, 6), R(0, 6)); }
			else if (k == "phases") { std::vector<int> last; S x; for (int t = 0; t < threads; t++) if (C(0.4)) x += fmt(x.empty() ? "%d" : ",%d", t); if (!x.empty()) l += " last=" + x; }
			else l += fmt(" root=%d", R(0, threads - 1));
			P(l);
		}
	}
	void c10()
	{
		comp("comp_once", {"A", "D"});
		machine(1, compThr(2)); schedule();
		int n = R(1, 3); setup.push_back(fmt("objects %d", n));
		int k = R(1, 6);
		for (int i = 0; i < k; i++) for (int t = 0; t < threads; t++) if (C(0.9)) P(fmt("op 0 %d exec %d", t, R(0, n - 1)));
	}
	void c11()
	{
		comp("comp_numa", {"A", "D"});
		machine(1, compThr(1), 4); schedule();
		int n = pick({1, 1, 2, 3});
		for (int i = 0; i < n; i++) setup.push_back(fmt("numa threads=%d detect=%d", C(0.7) ? threads : R(1, threads), (int)C(0.8)));
		bool faulty = C(0.3);
		int k = R(2, 9); std::vector<int> order;
		for (int i = 0; i < n; i++) { P(fmt("op -1 -1 reg %d", i)); if (C(0.3)) break; }
		for (int i = 0; i < k; i++) {
			S o = pickS({"reg", "reg", "move", "comm", "sync"}); S l = fmt("op -1 -1 %s %d", o.c_str(), R(0, n - 1));
			if (o == "move") for (int t = 0; t < threads; t++) l += fmt(" %d", R(0, cpus - 1));
			P(l);
		}
		if (faulty) { const char *kinds[] = {"key_create_error", "getcpu_error", "numa_node_error", "setspecific_error"}; s.faults.push_back(faultLine(kinds[R(0, 3)], R(1, 4), pick({1, 1, 2, 100}), -1, C(0.6) ? -1 : R(0, threads - 1))); }
	}
	void c12()
	{
		comp("comp_mutex", {"A", "B", "C"});
		int rk = C(0.08) ? R(5, 8) : pick({1, 2, 2, 2, 3, 3, 4}); machine(rk, rk > 4 ? 1 : rk == 4 ? R(1, 2) : pick({1, 1, 2, 2, 3}), 1); schedule();
		int o = pick({1, 1, 2}), sl = pick({1, 1, 2, 3}); setup.push_back(fmt("locks objects=%d slots=%d shared=%d", o, sl, (int)C(0.4)));
		int n = R(1, 5); bool one = C(0.4); int hr = R(0, rk - 1), hs = R(0, sl - 1);
		for (int k = 0; k < rk; k++) for (int t = 0; t < threads; t++) { int m = R(std::max(1, n - 2), n); for (int i = 0; i < m; i++) P(fmt("op %d %d lock %d %d %d hold=%d", k, t, R(0, o - 1), one ? hr : R(0, rk - 1), one ? hs : R(0, sl - 1), R(0, 3))); }
	}
	void c19()
	{
		comp("comp_commthread", {"B", "C"});
		int rk = C(0.06) ? R(5, 8) : pick({1, 2, 2, 3, 3, 4}); machine(rk, rk > 4 ? 1 : rk == 4 ? R(1, 2) : pick({1, 1, 2, 3})); schedule();
		int rounds = pick({1, 1, 2, 3}), k = 0, gs = 0;
		auto G = [&] { P(fmt("op -1 -1 gsync %d", gs++)); };
		if (C(0.2)) { P("op -1 0 reg 99 world expect=6"); G(); }
		for (int x = 0; x < rounds; x++) {
			// the thread belongs to all processes (or to a group of them: then only its members use it)
			S tc = ranks > 1 && C(0.15) ? newComm(1) : S("world");
			int cpu = C(0.5) ? -1 : R(-2 * cpus, 2 * cpus);
			P(fmt("op -1 0 start %d %s", cpu, tc.c_str()));
			if (C(0.2)) P(fmt("op -1 0 start -1 %s expect=7", tc != "world" && C(0.6) ? "world" : tc.c_str())); // for some processes it is the first start
			if (C(0.5)) G();
			std::vector<int> mem = tc == "world" ? all() : commMembers[tc];
			int nr = pick({0, 1, 1, 2, 3}); std::vector<std::pair<int, S>> live;
			auto sends = [&](std::pair<int, S> l) {
				std::vector<int> m = l.second == "world" ? all() : commMembers[l.second];
				for (int a : m) for (int t = 0; t < threads; t++) { int c = R(0, 2); for (int i = 0; i < c; i++) P(fmt("op %d %d send %d %d %d", a, t, l.first, R(0, (int)m.size() - 1), R(1, 4))); }
			};
			for (int i = 0; i < nr; i++) {
				S c = tc;
				if (ranks > 1 && C(0.4)) { // a group of the members
					std::vector<int> m = mem; for (int q = m.size() - 1; q > 0; q--) std::swap(m[q], m[R(0, q)]);
					m.resize(R(1, m.size())); c = fmt("c%zu", commMembers.size()); S l = "comm " + c; for (int y : m) l += fmt(" %d", y); setup.push_back(l); commMembers[c] = m;
				}
				P(fmt("op -1 0 reg %d %s", k, c.c_str())); live.push_back({k++, c});
				sends(live[r.below(live.size())]);
				if (C(0.3)) { size_t q = r.below(live.size()); P(fmt("op -1 0 unreg %d", live[q].first)); live.erase(live.begin() + q); }
				if (C(0.2)) G();
			}
			for (auto &l : live) if (C(0.5)) sends(l);
			for (auto &l : live) P(fmt("op -1 0 unreg %d", l.first));
			if (C(0.6)) G(); else P("op -1 -1 lsync " + fmt("%d", gs++));
			P("op -1 0 stop");
			if (C(0.3)) P(fmt("op -1 0 reg %d world expect=6", 100 + x));
			if (C(0.5)) G();
		}
	}
	// the communication thread under real grids
	void c19sys()
	{
		s.variant = pickS({"B", "C"});
		int rk = pick({1, 2, 2, 3}); machine(rk, R(1, 2)); schedule();
		int rounds = pick({1, 2, 2, 3});
		if (C(0.2)) {
			GGrid &g = newGrid(pickS({"FULL", "CACHE"}), "THREAD", "world"); addLevel(g, 0, 30); params(g);
			P("tsync"); create(g); if (rk > 1) P(openLine(g, 0) + " expect=6"); P("gsync"); close(g); P("gsync");
		}
		for (int x = 0; x < rounds; x++) {
			startComm();
			if (C(0.3)) { P(fmt("startcomm %d -1 world expect=7", R(0, 2))); P("tsync"); }
			int n = pick({1, 1, 2}); std::vector<size_t> gi;
			for (int i = 0; i < n; i++) { GGrid &g = newGrid(pickS({"FULL", "CACHE", "CACHE"}), "THREAD", anyComm()); addLevel(g, 0, 40, pick({1, 2})); params(g); gi.push_back(grids.size() - 1); }
			for (size_t i : gi) { create(grids[i]); P(openLine(grids[i], 0)); }
			for (size_t i : gi) reads(grids[i], 0, 5, membersOf(grids[i]));
			for (size_t i : gi) close(grids[i]);
			stopComm(); P("tsync");
			if (C(0.5)) P("gsync");
		}
	}
	void c21()
	{
		comp("comp_fortran", {"A", "B", "D"});
		machine(1, pick({1, 2, 3, 3, 4, 4}), 2); schedule();
		int h = C(0.15) ? R(10, 40) : R(1, 6), nf = R(1, 3); setup.push_back(fmt("handles %d", h));
		for (int i = 0; i < nf; i++) setup.push_back(fmt("file f%d type=1 n=1 user=0 dims=%d coords=- var=z base=%d frac=0 neg=0", i, R(2, 9), 20 * (i + 1)));
		if (h > 6) for (int i = 0; i < h; i++) if (C(0.8)) P(fmt("op 0 %d create %d %d struct=0", R(0, threads - 1), i, R(0, 4)));
		int n = R(5, thorough ? 40 : 20); double pc = pick({0.1, 0.3});
		for (int i = 0; i < n; i++) for (int t = 0; t < threads; t++) {
			double x = r.unit(); int sl = C(0.7) ? (t * 2 + R(0, 1)) % h : R(0, h - 1);
			if (x < 0.3) P(fmt("op 0 %d create %d %d struct=%d", t, sl, R(0, 4), (int)C(0.15)));
			else if (x < 0.5) P(fmt("op 0 %d open %d f%d %s", t, sl, R(0, nf - 1), S(pickS({"FULL", "CACHE", "PASS_THROUGH"})).c_str()));
			else if (x < 1 - pc) P(fmt("op 0 %d use %d %d %d", t, sl, R(0, 20), R(0, 1)));
			else P(fmt("op 0 %d close %d", t, sl));
		}
	}
};

// The same program with another build of the library, where it allows the program: E has no locks (one thread), F no MPI-3
void remap(Scenario &s, uint64_t seed, bool haveE, bool haveF)
{
	if (!s.comp.empty() || (!haveE && !haveF)) return;
	Rng r; r.seed(seed ^ 0x5bd1e995);
	if (!r.chance(0.5)) return;
	int threads = 1; bool comm = false; std::map<S, S> grid, mpi;
	for (auto &l : s.lines) {
		auto w = split(l);
		if (w[0] == "startcomm") comm = true;
		if (w[0] == "threads") threads = atoi(w[1].c_str());
		if (w[0] == "param") {
			S n = w[3], v = w[4]; for (char &c : n) c = c == '-' ? '_' : toupper(c); for (char &c : v) c = toupper(c);
			if (n == "GRID") grid[w[1]] = v;
			if (n == "MPI_COMMUNICATION") mpi[w[1]] = v;
		}
	}
	bool win = false; for (auto &g : grid) if (g.second == "CACHE" && mpi[g.first] != "THREAD" && mpi[g.first] != "OFF") win = true;
	if (s.variant == "A" && haveE && threads == 1 && !comm) s.variant = "E";
	else if ((s.variant == "B" || s.variant == "C") && haveF && !win) s.variant = "F";
}

bool generate(const S &prop, uint64_t seed, Scenario &s, const S &only, bool thorough)
{
	s = Scenario();
	Gen g(s, prop, seed, thorough, only);
	if (prop == "C01") g.c01();
	else if (prop == "C02") g.dist("FULL", "WINDOW");
	else if (prop == "C03") g.dist("FULL", "THREAD");
	else if (prop == "C04") g.dist("CACHE", "WINDOW");
	else if (prop == "C05") g.dist("CACHE", "THREAD");
	else if (prop == "C06") g.c06();
	else if (prop == "C07") g.c07();
	else if (prop == "C13") g.c13();
	else if (prop == "C14") g.c14();
	else if (prop == "C15") g.c15();
	else if (prop == "C16") g.c16();
	else if (prop == "C17") g.multi(true, true);
	else if (prop == "C18") { int k = g.R(0, 5); if (k == 0) g.dist("FULL", "WINDOW"); else if (k == 1) g.dist("FULL", "THREAD"); else if (k == 2) g.dist("CACHE", "WINDOW"); else if (k == 3) g.dist("CACHE", "THREAD"); else if (k == 4) g.multi(false, true); else g.c06(); }
	else if (prop == "C08") g.c08();
	else if (prop == "C09") g.c09();
	else if (prop == "C10") g.c10();
	else if (prop == "C11") g.c11();
	else if (prop == "C12") g.c12();
	else if (prop == "C19") g.c19();
	else if (prop == "C19.sys") g.c19sys();
	else if (prop == "C21") g.c21();
	else if (prop == "C08.sys") g.c08sys();
	else if (prop == "C09.sys") g.c09sys(false);
	else if (prop == "C11.sys") g.c09sys(true);
	else if (prop == "C10.sys") g.c10sys();
	else if (prop == "C12.sys") { g.dist("CACHE", "WINDOW"); }
	else if (prop == "C21.sys") g.c21sys();
	else if (prop == "C20") g.c20();
	else if (prop == "C22") g.c22();
	else if (prop == "C23") g.c23();
	else if (prop == "C24") g.multi(false, true);
	else return false;
	g.finish();
	return true;
}
}
