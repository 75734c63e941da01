// Driver: seeded exploration on all cores, replay, minimisation.
#include "scen.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <memory>
#include <unordered_set>

namespace sim {
static const int MAX_RANKS = 8;
static std::map<std::string, Lib> libs;
static std::vector<std::pair<std::string, std::string>> libArgs;

static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

// Every simulated process has its own copy of the library (own static data)
static void loadLibs()
{
	for (auto &l : libArgs) {
		std::string data = slurp(l.second);
		if (data.empty()) { fprintf(stderr, "cannot read %s\n", l.second.c_str()); exit(2); }
		for (int r = 0; r < MAX_RANKS; r++) {
			int fd = memfd_create("lib", 0);
			for (size_t o = 0; o < data.size();) { ssize_t n = write(fd, data.data() + o, data.size() - o); if (n <= 0) { perror("write"); exit(2); } o += n; }
			loadingRank = r;
			void *h = dlopen(fmt("/proc/self/fd/%d", fd).c_str(), RTLD_NOW | RTLD_LOCAL);
			loadingRank = -1;
			if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
			// the descriptor stays open: dlopen recognises libraries by their path
			if (!libs[l.first].handles.empty() && libs[l.first].handles.back() == h) { fprintf(stderr, "library copies are not separate\n"); exit(2); }
			libs[l.first].handles.push_back(h);
		}
	}
}
void *libSymbol(const std::string &key, int rank, const char *name)
{
	auto it = libs.find(key);
	if (it == libs.end()) { fprintf(stderr, "library variant %s is not loaded\n", key.c_str()); exit(2); }
	void *p = dlsym(it->second.handles[rank], name);
	if (!p) { fprintf(stderr, "%s: no symbol %s\n", key.c_str(), name); exit(2); }
	return p;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void resetShared() { memset((void *)shr, 0, offsetof(Shared, devs)); }

// one simulated execution in a child process
static void exec1(const Scenario &s, uint64_t seed, const std::vector<Dev> *devs, bool loud, int attempts = 0)
{
	resetShared();
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		rlimit rl{25, 28}; setrlimit(RLIMIT_CPU, &rl);
		verbose = loud;
		rng.seed(seed);
		if (devs) setReplay(*devs);
		try { runScenario(s); }
		catch (std::exception &e) { violation("exception", std::string("an exception escapes the library: ") + e.what()); }
		fflush(stdout);
		_exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // ended from outside (not enough memory): not the fault of the library
		if (++attempts > 5) { fprintf(stderr, "a simulated program was killed from outside\n"); exit(2); }
		sleep(attempts); exec1(s, seed, devs, loud, attempts); return;
	}
	if (!shr->finished && !shr->violated) {
		if (WIFEXITED(st) && WEXITSTATUS(st) == 2) exit(2);
		shr->violated = 1;
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { strcpy(shr->cls, "endless-loop"); strcpy(shr->msg, "no scheduling point for a long time"); }
		else { strcpy(shr->cls, "crash"); snprintf(shr->msg, sizeof shr->msg, "the simulated program ended with status 0x%x", st); }
	}
}
struct Result { bool bad; std::string cls, msg; uint64_t sched, event, steps; std::vector<Dev> devs; };
static Result result(bool withDevs)
{
	Result r{shr->violated != 0, shr->cls, shr->msg, shr->schedHash, shr->eventHash, shr->steps, {}};
	if (withDevs) r.devs.assign(shr->devs, shr->devs + shr->nDevs);
	return r;
}

static std::string devText(const std::vector<Dev> &d) { std::string t; for (auto &x : d) t += fmt("dev %d %d %lu %ld\n", x.fiber, x.kind, (unsigned long)x.idx, (long)x.val); return t; }

struct Minimised { Scenario s; std::vector<Dev> devs; Result r; };
static Minimised minimise(Scenario s, std::vector<Dev> devs, const std::string &cls, double budget)
{
	double end = now() + budget;
	Minimised best; best.s = s; best.devs = devs;
	exec1(s, 0, &devs, false); best.r = result(false);
	if (!best.r.bad || best.r.cls != cls) return best;
	Rng rg; rg.seed(12345);
	auto tryScenario = [&](const Scenario &c) -> bool {
		exec1(c, 0, &best.devs, false);
		if (shr->violated && cls == shr->cls) { best.s = c; best.r = result(false); return true; }
		for (int i = 0; i < 6 && now() < end; i++) {
			exec1(c, rg.next(), nullptr, false);
			if (shr->violated && cls == shr->cls) {
				std::vector<Dev> d(shr->devs, shr->devs + shr->nDevs);
				exec1(c, 0, &d, false);
				if (shr->violated && cls == shr->cls) { best.s = c; best.devs = d; best.r = result(false); return true; }
			}
		}
		return false;
	};
	// remove program lines and faults
	for (size_t chunk = std::max<size_t>(1, best.s.lines.size() / 2); now() < end; chunk = chunk / 2) {
		for (size_t i = 0; i < best.s.lines.size() && now() < end;) {
			size_t n = std::min(chunk, best.s.lines.size() - i);
			static const std::set<std::string> keep = {"ranks", "threads", "nodes", "proc", "place", "file", "comm", "grid", "manager", "objects", "numa", "locks", "handles"};
			auto keepOp = [](const std::string &l) { auto w = split(l); return w[0] == "op" && w.size() > 3 && (w[3] == "start" || w[3] == "stop" || w[3] == "reg" || w[3] == "unreg" || w[3] == "gsync" || w[3] == "lsync"); };
			Scenario c = best.s; bool any = false;
			std::vector<std::string> nl(c.lines.begin(), c.lines.begin() + i);
			for (size_t k = i; k < i + n; k++) if (keep.count(split(c.lines[k])[0]) || (c.comp == "comp_commthread" && keepOp(c.lines[k]))) nl.push_back(c.lines[k]); else any = true;
			nl.insert(nl.end(), c.lines.begin() + i + n, c.lines.end());
			c.lines = nl;
			if (any && tryScenario(c)) continue;
			i += n;
		}
		if (chunk <= 1) break;
	}
	for (size_t i = 0; i < best.s.faults.size() && now() < end;) { Scenario c = best.s; c.faults.erase(c.faults.begin() + i); if (!tryScenario(c)) i++; }
	// remove deviations from the default schedule
	end = std::max(end, now() + budget / 2);
	size_t gran = 2;
	while (best.devs.size() > 0 && now() < end) {
		size_t n = best.devs.size(), chunk = (n + gran - 1) / gran; bool ok = false;
		for (size_t i = 0; i < n && now() < end; i += chunk) {
			std::vector<Dev> d(best.devs.begin(), best.devs.begin() + i);
			if (i + chunk < n) d.insert(d.end(), best.devs.begin() + i + chunk, best.devs.end());
			exec1(best.s, 0, &d, false);
			if (shr->violated && cls == shr->cls) { best.devs = d; best.r = result(false); ok = true; gran = std::max<size_t>(2, gran - 1); break; }
		}
		if (!ok) { if (chunk <= 1) break; gran = std::min(n, gran * 2); }
	}
	exec1(best.s, 0, &best.devs, false); best.r = result(false);
	return best;
}

struct WorkerStats {
	uint64_t runs, steps, clock, switches, aborted, violations, known, detChecks, detFails, replayChecks;
	uint64_t faults[F_NUM]; uint64_t faultRuns;
	uint64_t nProbes; struct { char name[48]; uint64_t n; } probes[128];
	uint64_t variants[8];
};
struct Global { volatile int stop; volatile int found; WorkerStats w[64]; };
static Global *glob;

static void addStats(WorkerStats &w)
{
	w.runs++; w.steps += shr->steps; w.clock += shr->clock; w.switches += shr->switches; w.aborted += shr->aborted;
	bool f = false;
	for (int i = 0; i < F_NUM; i++) { w.faults[i] += shr->faults[i]; if (i < F_PLANNED_NUM && shr->faults[i]) f = true; }
	w.faultRuns += f;
	for (uint64_t i = 0; i < shr->nProbes; i++) {
		uint64_t k = 0;
		while (k < w.nProbes && strcmp(w.probes[k].name, shr->probes[i].name)) k++;
		if (k == w.nProbes && k < 128) { strcpy(w.probes[k].name, shr->probes[i].name); w.nProbes++; }
		if (k < 128) w.probes[k].n += shr->probes[i].n;
	}
}

static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; }
	return o + "\"";
}

static std::string prop, outFile, replayDir, only;
static uint64_t baseSeed = 1, maxRuns = ~0ull; static double seconds = 30; static int jobs = 8; static bool thorough = false; static double minBudget = 20;
static std::vector<std::string> known;
static bool isKnown(const std::string &cls, const std::string &msg, const Scenario &s)
{
	for (auto &k : known) {
		auto p = split(k, '|');
		if (p.size() < 2 || p[0] != cls || msg.find(p[1]) == std::string::npos) continue;
		bool ok = true; std::string t = s.text();
		for (size_t i = 2; i < p.size(); i++) if (t.find(p[i]) == std::string::npos) ok = false;
		if (ok) return true;
	}
	return false;
}

static void worker(int id)
{
	shr = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	WorkerStats &w = glob->w[id];
	double end = now() + seconds;
	std::unordered_set<uint64_t> sched, event;
	std::string out = outFile + fmt(".w%d", id), viol;
	for (uint64_t i = id; i < maxRuns && now() < end && !glob->stop; i += jobs) {
		uint64_t seed = baseSeed * 1000003ull + i;
		Scenario s;
		if (!generate(prop, seed, s, only, thorough)) { fprintf(stderr, "no generator for %s\n", prop.c_str()); _exit(2); }
		remap(s, seed, libs.count("E"), libs.count("F"));
		exec1(s, seed, nullptr, false);
		addStats(w);
		if (shr->switches && shr->nProbes) { sched.insert(shr->schedHash); event.insert(shr->eventHash); }
		bool bad = shr->violated;
		if (bad && isKnown(shr->cls, shr->msg, s)) { w.known++; viol += fmt("{\"known\":1,\"cls\":%s,\"msg\":%s}\n", jstr(shr->cls).c_str(), jstr(shr->msg).c_str()); continue; }
		if ((i / jobs) % 64 == 3 || bad) {
			Result a = result(true);
			exec1(s, seed, nullptr, false); Result b = result(false);
			w.detChecks++;
			bool same = a.bad == b.bad && a.cls == b.cls && a.sched == b.sched && a.event == b.event && a.steps == b.steps;
			if (same && shr->nDevs < sizeof(shr->devs) / sizeof(Dev)) {
				exec1(s, 0, &a.devs, false); Result c = result(false);
				w.replayChecks++;
				same = a.bad == c.bad && a.cls == c.cls && a.sched == c.sched && a.event == c.event && a.steps == c.steps;
				if (!same && verbose) fprintf(stderr, "replay differs: seed %lu %s/%s steps %lu/%lu\n%s / %s\n", seed, a.cls.c_str(), c.cls.c_str(), a.steps, c.steps, a.msg.c_str(), c.msg.c_str());
			}
			if (!same) { w.detFails++; viol += fmt("{\"nondeterministic\":1,\"seed\":%lu,\"cls\":%s}\n", (unsigned long)seed, jstr(a.cls).c_str()); std::ofstream(replayDir + fmt("/nondet-%s-%lu.txt", prop.c_str(), (unsigned long)seed)) << s.text(); if (!bad) continue; }
			if (bad) {
				w.violations++;
				if (__sync_bool_compare_and_swap(&glob->found, 0, 1)) {
					std::string cls = a.cls, msg = a.msg;
					{ std::ofstream(replayDir + fmt("/orig-%s-%lu.txt", prop.c_str(), (unsigned long)seed)) << "# seed " << seed << "\n# " << cls << ": " << msg << "\n" << s.text(); }
					Minimised m = minimise(s, a.devs, cls, minBudget);
					std::string f = replayDir + fmt("/%s-%s-%lu.txt", prop.c_str(), cls.c_str(), (unsigned long)seed);
					{
						std::ofstream o(f);
						o << "# property " << prop << ", seed " << seed << " (base seed " << baseSeed << ", run " << i << ")\n# " << m.r.cls << ": " << m.r.msg << "\n";
						o << "# first seen as: " << msg << "\n# " << s.lines.size() << " scenario lines reduced to " << m.s.lines.size() << ", " << a.devs.size() << " scheduling decisions reduced to " << m.devs.size() << "\n";
						o << "expect " << m.r.cls << fmt(" %016lx %016lx %lu", (unsigned long)m.r.sched, (unsigned long)m.r.event, (unsigned long)m.r.steps) << "\n";
						o << m.s.text() << devText(m.devs);
					}
					viol += fmt("{\"violation\":1,\"seed\":%lu,\"cls\":%s,\"msg\":%s,\"replay\":%s,\"lines\":%zu,\"devs\":%zu,\"origDevs\":%zu}\n", (unsigned long)seed, jstr(m.r.cls).c_str(), jstr(m.r.msg).c_str(), jstr(f).c_str(), m.s.lines.size(), m.devs.size(), a.devs.size());
					glob->stop = 1;
				}
				break;
			}
		}
	}
	std::ofstream o(out); o << viol; o.close();
	std::ofstream h(out + ".h", std::ios::binary);
	uint64_t n = sched.size(); h.write((char *)&n, 8); for (uint64_t x : sched) h.write((char *)&x, 8);
	n = event.size(); h.write((char *)&n, 8); for (uint64_t x : event) h.write((char *)&x, 8);
	h.close();
	_exit(0);
}

static int explore()
{
	glob = (Global *)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now();
	shr = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	loadLibs(); // the workers share the copies of the library
	std::vector<pid_t> ps;
	for (int i = 0; i < jobs; i++) { pid_t p = fork(); if (!p) worker(i); ps.push_back(p); }
	int rc = 0;
	for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 2; fprintf(stderr, "a worker failed (status 0x%x)\n", st); } }
	WorkerStats t; memset(&t, 0, sizeof t);
	std::map<std::string, uint64_t> probes; std::unordered_set<uint64_t> sched, event; std::string lines;
	for (int i = 0; i < jobs; i++) {
		WorkerStats &w = glob->w[i];
		t.runs += w.runs; t.steps += w.steps; t.clock += w.clock; t.switches += w.switches; t.aborted += w.aborted; t.violations += w.violations; t.known += w.known; t.detChecks += w.detChecks; t.detFails += w.detFails; t.replayChecks += w.replayChecks; t.faultRuns += w.faultRuns;
		for (int k = 0; k < F_NUM; k++) t.faults[k] += w.faults[k];
		for (uint64_t k = 0; k < w.nProbes; k++) probes[w.probes[k].name] += w.probes[k].n;
		std::string f = outFile + fmt(".w%d", i);
		lines += slurp(f); unlink(f.c_str());
		std::string h = slurp(f + ".h"); unlink((f + ".h").c_str());
		if (h.size() >= 16) {
			const uint64_t *p = (const uint64_t *)h.data(); uint64_t n = *p++; for (uint64_t k = 0; k < n; k++) sched.insert(*p++);
			n = *p++; for (uint64_t k = 0; k < n; k++) event.insert(*p++);
		}
	}
	std::ofstream o(outFile);
	o << fmt("{\"runs\":%lu,\"seconds\":%.2f,\"steps\":%lu,\"clock\":%lu,\"switches\":%lu,\"stopped_on_fault\":%lu,\"violations\":%lu,\"known\":%lu,\"determinism_checks\":%lu,\"determinism_failures\":%lu,\"replay_checks\":%lu,\"runs_with_faults\":%lu,\"distinct_schedules\":%zu,\"distinct_histories\":%zu,\n",
		t.runs, now() - t0, t.steps, t.clock, t.switches, t.aborted, t.violations, t.known, t.detChecks, t.detFails, t.replayChecks, t.faultRuns, sched.size(), event.size());
	o << "\"faults\":{"; for (int k = 0; k < F_NUM; k++) o << (k ? "," : "") << jstr(faultName[k]) << ":" << t.faults[k];
	o << "},\n\"probes\":{"; bool first = true; for (auto &p : probes) { o << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
	o << "},\n\"reports\":["; first = true;
	for (auto &l : split(lines, '\n')) if (!l.empty()) { o << (first ? "" : ",\n") << l; first = false; }
	o << "]}\n";
	return rc;
}

static int replayCmd(const std::string &file, bool loud, bool record, uint64_t seed)
{
	shr = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	loadLibs();
	std::vector<Dev> devs; std::string expect;
	Scenario s = Scenario::parse(slurp(file), &devs, &expect);
	exec1(s, seed, record ? nullptr : &devs, loud);
	printf("%s %s %016lx %016lx %lu\n", shr->violated ? "VIOLATED" : shr->aborted ? "STOPPED" : "HELD", shr->violated ? shr->cls : "-", (unsigned long)shr->schedHash, (unsigned long)shr->eventHash, (unsigned long)shr->steps);
	if (shr->violated || shr->aborted) printf("%s\n", shr->msg);
	std::string got = fmt("%s %016lx %016lx %lu", shr->cls, (unsigned long)shr->schedHash, (unsigned long)shr->eventHash, (unsigned long)shr->steps);
	if (!expect.empty()) printf("%s\n", got == expect ? "REPRODUCED" : ("DIFFERENT, expected " + expect).c_str());
	return shr->violated ? 1 : 0;
}
}
using namespace sim;

int main(int argc, char **argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
		personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
		setenv("SIM_NOREEXEC", "1", 1);
		execv("/proc/self/exe", argv);
	}
	std::string mode = argc > 1 ? argv[1] : "", file; bool loud = false; uint64_t seed = 0; bool record = false;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--lib") { std::string v = next(); size_t e = v.find('='); libArgs.push_back({v.substr(0, e), v.substr(e + 1)}); }
		else if (a == "--prop") prop = next();
		else if (a == "--seed") { baseSeed = strtoull(next().c_str(), nullptr, 10); seed = baseSeed; }
		else if (a == "--seconds") seconds = atof(next().c_str());
		else if (a == "--runs") maxRuns = strtoull(next().c_str(), nullptr, 10);
		else if (a == "--jobs") jobs = std::min(64, atoi(next().c_str()));
		else if (a == "--out") outFile = next();
		else if (a == "--replays") replayDir = next();
		else if (a == "--only") only = next();
		else if (a == "--minimise") minBudget = atof(next().c_str());
		else if (a == "--known") known.push_back(next());
		else if (a == "--thorough") thorough = true;
		else if (a == "--verbose") { loud = true; verbose = true; }
		else if (a == "--record") record = true;
		else file = a;
	}
	arenaInit();
	if (mode == "explore" || mode == "replay") { int rc = mode == "explore" ? explore() : replayCmd(file, loud, record, seed); fflush(stdout); _exit(rc); }
	if (mode == "gen") { Scenario s; generate(prop, seed, s, only, thorough); remap(s, seed, libs.count("E"), libs.count("F")); printf("%s", s.text().c_str()); return 0; }
	fprintf(stderr, "usage: sim explore|replay|gen ...\n");
	return 2;
}
