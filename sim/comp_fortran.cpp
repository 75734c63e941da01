// C21: the Fortran interface used by several threads at the same time
#include "comp.hpp"
#include "asagi.h"
#include "asagi_f90.h"
#include <cmath>
namespace {
enum State { FREE, BUSY, LIVE };
struct Slot { State st = FREE; int id = -1, type = 0, opener = -1, users = 0; size_t size = 0; std::string file; };
std::vector<Slot> slots;
struct File { int base = 0, cells = 0; };
std::map<std::string, File> files;
const size_t sizes[] = {1, 4, 8, 4, 8};
void run(int t)
{
	for (auto &w : opsOf(t)) {
		std::string c = w.s(0); Slot &s = slots[w.i(1) % slots.size()];
		cur->op = c + " " + w.s(1) + " " + w.s(2);
		if (c == "create" && s.st == FREE) {
			s.st = BUSY; int ty = w.i(2) % 5, id; s.size = sizes[ty];
			if (w.kv("struct", 0)) {
				int len[2] = {1, 3}; long dis[2] = {0, 8}; asagi_type tt[2] = {(asagi_type)3, (asagi_type)4};
				{ Call x; id = f90asagi_grid_create_struct(2, len, dis, tt); }
				s.size = 32;
			} else { Call x; id = f90asagi_grid_create((asagi_type)ty); }
			for (auto &o : slots) if (o.st == LIVE && o.id == id) violation("handle", fmt("handle %d is returned for a new grid while another open grid has it", id));
			s.id = id; s.type = w.kv("struct", 0) ? -1 : ty; s.users = 0; s.opener = -1; s.st = LIVE;
			probe("handles_created");
		} else if (c == "open" && s.st == LIVE && !s.users && s.opener < 0 && s.type >= 0) {
			s.st = BUSY; int e;
			{ Call x; f90asagi_grid_set_threads(s.id, 1); f90asagi_grid_set_param(s.id, "GRID", w.s(3).c_str(), 0); f90asagi_grid_set_param(s.id, "BLOCK_SIZE_0", "3", 0); f90asagi_grid_set_param(s.id, "CACHE_SIZE", "2", 0); }
			{ Call x; e = f90asagi_grid_open(s.id, w.s(2).c_str(), 0); }
			if (e) violation("handle", fmt("opening a grid through its handle fails with %d", e));
			s.opener = t; s.file = w.s(2); s.st = LIVE;
			probe("handles_opened");
		} else if (c == "use" && s.st == LIVE) {
			s.users++; int id = s.id; size_t size = s.size; unsigned vs;
			{ Call x; vs = f90asagi_grid_var_size(id); }
			if (vs != size && (s.type >= 0 || s.opener >= 0)) // (the size of a structure is computed by open)
				 violation("handle", fmt("handle %d refers to a grid with cells of %u bytes instead of %zu", id, vs, size));
			if (s.opener == t) {
				const File &f = files[s.file]; int cell = w.i(2) % f.cells; double pos[4] = {(double)cell, 0, 0, 0};
				int d; { Call x; d = f90asagi_grid_dimensions(id); }
				if (d != 1) violation("handle", fmt("handle %d refers to a grid with %d dimensions instead of 1", id, d));
				double mx; { Call x; mx = f90asagi_grid_max(id, 0); }
				if (std::abs(mx - (f.cells - 0.5)) > 1e-6) violation("handle", fmt("handle %d refers to a grid with range up to %g instead of %g", id, mx, f.cells - 0.5));
				double v; { Call x; v = w.i(3) & 1 ? f90asagi_grid_get_double(id, pos, 0) : (double)f90asagi_grid_get_int(id, pos, 0); }
				if (v != f.base + cell) violation("wrong-value", fmt("cell %d of the grid with handle %d is %g instead of %d", cell, id, v, f.base + cell));
				probe("handles_read");
			}
			probe("handles_used");
			s.users--;
		} else if (c == "close" && s.st == LIVE && !s.users) {
			s.st = BUSY; int id = s.id;
			{ Call x; f90asagi_grid_close(id); }
			s.id = -1; s.st = FREE;
			probe("handles_closed");
		}
		cur->op.clear();
	}
	hbarrier("end", compThreads);
	if (t == 0) for (auto &s : slots) if (s.st == LIVE) { Call x; f90asagi_grid_close(s.id); }
}
}
extern "C" void comp_start(const CompScenario *c)
{
	parseAll(c);
	slots.resize(std::max<long>(1, setup("handles").i(1)));
	for (auto &l : all) if (l.s(0) == "file") { File f; f.base = l.kv("base", 1); f.cells = atoi(l.ks("dims", "4").c_str()); files[l.s(1)] = f; }
	for (int t = 0; t < compThreads; t++) start(t, [t] { run(t); });
}
