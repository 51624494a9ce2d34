// C22: log levels.
#include "common.h"
#include "helpers/logger.h"
#ifndef LEN
#define LEN 8
#endif
using namespace spdlog;
struct nm { const char *name; level::level_enum lev; };
static const nm NAMES[] = {{"off", level::off}, {"critical", level::critical}, {"err", level::err}, {"warn", level::warn}, {"info", level::info}, {"debug", level::debug}, {"trace", level::trace},
	// documented, but the library has no such levels: the nearest one
	{"emerg", level::critical}, {"alert", level::critical}, {"notice", level::info}};
NOINLINE static void t_names()
{
	str s = sym_strn(0, LEN, "name");
	uint64_t want = level::trace;
	for (auto &n : NAMES) want = sym_ite(eqv(s, n.name), (uint64_t) n.lev, want);
	auto l = helpers::get_log_level(s);
	sym_assert((uint64_t) l == want, "a log level name selects another level");
	sym_tracev("level", (uint64_t) l);
	sym_reach(l == level::trace ? "most-verbose" : "named");
}
NOINLINE static void t_documented()
{
	auto &n = NAMES[sym_pick(10, "which")];
	sym_assert(helpers::get_log_level(n.name) == n.lev, "a documented log level name selects another level");
	sym_reach("documented");
}
NOINLINE static void t_compare()
{
	uint32_t a = sym_u32("first"), b = sym_u32("second");
	sym_assume(sym_and(a <= (uint32_t) level::off, b <= (uint32_t) level::off));
	// a smaller level is more verbose
	int c = helpers::compare_log_levels((level::level_enum) a, (level::level_enum) b);
	sym_assert(sym_ite(a < b, c > 0, sym_ite(a == b, c == 0, c < 0)) != 0, "comparing two log levels gives the wrong order");
	int na = helpers::get_log_level_number((level::level_enum) a), nb = helpers::get_log_level_number((level::level_enum) b);
	sym_assert((na > nb) == (a < b) && (na == nb) == (a == b), "the numbers of log levels are not ordered");
	sym_tracev("result", (uint64_t) (int64_t) c);
	sym_reach(c < 0 ? "less" : c > 0 ? "more" : "equal");
}
extern "C" void sym_main()
{
	switch (sym_pick(3, "part")) {
	case 0: t_names(); break;
	case 1: t_documented(); break;
	case 2: t_compare(); break;
	}
}
