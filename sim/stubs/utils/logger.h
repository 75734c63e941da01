// Stand-in for the logger of the (absent) utils submodule. As there, logError() ends the program.
#ifndef UTILS_LOGGER_H
#define UTILS_LOGGER_H
#include <sstream>
#include <string>
#define NDBG_UNUSED(x) ((void)(x))
extern "C" void sim_fatal(const char *msg);
namespace utils {
class NullLogger { public: template<class T> NullLogger &operator<<(const T &) { return *this; } };
class FatalLogger {
	std::string m_text; bool m_active;
	FatalLogger(const FatalLogger &);
public:
	FatalLogger() : m_active(true) {}
	FatalLogger(FatalLogger &&o) : m_text(o.m_text), m_active(o.m_active) { o.m_active = false; }
	~FatalLogger() { if (m_active) sim_fatal(m_text.c_str()); }
	template<class T> FatalLogger &operator<<(const T &t) { std::ostringstream o; o << t << ' '; m_text += o.str(); return *this; }
};
}
inline utils::NullLogger logDebug(int = 0) { return utils::NullLogger(); }
inline utils::NullLogger logInfo(int = 0) { return utils::NullLogger(); }
inline utils::NullLogger logWarning(int = 0) { return utils::NullLogger(); }
inline utils::FatalLogger logError() { return utils::FatalLogger(); }
#endif
