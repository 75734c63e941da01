// Scenario: everything that a run does, as text lines
#pragma once
#include "core.hpp"
#include "glue.hpp"
namespace sim {
struct Scenario {
	std::string variant;                // library variant, e.g. "A"
	std::string comp;                   // component harness ("" : whole system)
	std::vector<std::string> lines;     // set-up and program
	std::vector<std::string> faults;    // "fault kind nth cnt rank thread"
	RunCfg cfg;
	std::string text() const;           // without deviations
	static Scenario parse(const std::string &text, std::vector<Dev> *devs, std::string *expect);
};
// the loaded copies of the library: one per simulated process
struct Lib { std::vector<void *> handles; };
void *libSymbol(const std::string &key, int rank, const char *name);
// executes a scenario (in a forked child); returns only if all fibers have finished
void runScenario(const Scenario &s);
// produces the scenario of a seed for a property; false: the property has no simulation
void remap(Scenario &s, uint64_t seed, bool haveE, bool haveF);
bool generate(const std::string &prop, uint64_t seed, Scenario &s, const std::string &only, bool thorough);
std::vector<std::string> split(const std::string &s, char c = ' ');
}
// interface of component harnesses
struct CompScenario { int rank, ranks; int nLines; const char *const *lines; };
typedef void (*CompStart)(const CompScenario *);
