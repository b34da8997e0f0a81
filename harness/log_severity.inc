// included by log_severity_*.cpp, which define MINSEV (the severity, a number) and maybe SM_PACKAGE_NAME
#define SMCONSOLE_MIN_SEVERITY MINSEV
#include <sm/logging.hpp>
#include "log_severity.hpp"
namespace {
#define S1(L, V, ID, n, o, c, ...) {"SM_" #L, V, ID, n, o, c, [](bool b) { (void)b; __VA_ARGS__; }}
#define S(L, V) \
  S1(L, V, "", 0, 0, 0, SM_##L("v=%d", ls::arg())), S1(L, V, "_STREAM", 0, 0, 0, SM_##L##_STREAM("v=" << ls::arg())), \
  S1(L, V, "_NAMED", 1, 0, 0, SM_##L##_NAMED("mc", "v=%d", ls::arg())), S1(L, V, "_STREAM_NAMED", 1, 0, 0, SM_##L##_STREAM_NAMED("mc", "v=" << ls::arg())), \
  S1(L, V, "_COND", 0, 0, 1, SM_##L##_COND(ls::cond(b), "v=%d", ls::arg())), S1(L, V, "_STREAM_COND", 0, 0, 1, SM_##L##_STREAM_COND(ls::cond(b), "v=" << ls::arg())), \
  S1(L, V, "_COND_NAMED", 1, 0, 1, SM_##L##_COND_NAMED(ls::cond(b), "mc", "v=%d", ls::arg())), S1(L, V, "_STREAM_COND_NAMED", 1, 0, 1, SM_##L##_STREAM_COND_NAMED(ls::cond(b), "mc", "v=" << ls::arg())), \
  S1(L, V, "_ONCE", 0, 1, 0, SM_##L##_ONCE("v=%d", ls::arg())), S1(L, V, "_STREAM_ONCE", 0, 1, 0, SM_##L##_STREAM_ONCE("v=" << ls::arg())), \
  S1(L, V, "_ONCE_NAMED", 1, 1, 0, SM_##L##_ONCE_NAMED("mc", "v=%d", ls::arg())), S1(L, V, "_STREAM_ONCE_NAMED", 1, 1, 0, SM_##L##_STREAM_ONCE_NAMED("mc", "v=" << ls::arg())), \
  S1(L, V, "_THROTTLE", 0, 0, 0, SM_##L##_THROTTLE(1.0, "v=%d", ls::arg())), S1(L, V, "_STREAM_THROTTLE", 0, 0, 0, SM_##L##_STREAM_THROTTLE(1.0, "v=" << ls::arg())), \
  S1(L, V, "_THROTTLE_NAMED", 1, 0, 0, SM_##L##_THROTTLE_NAMED(1.0, "mc", "v=%d", ls::arg())), S1(L, V, "_STREAM_THROTTLE_NAMED", 1, 0, 0, SM_##L##_STREAM_THROTTLE_NAMED(1.0, "mc", "v=" << ls::arg()))
// a statement is one statement: it can be the branch of an if without braces
#define B1(L, V) if (v == V) { if (b) SM_##L("v=%d", ls::arg()); else ++ls::other; if (!b) ++ls::other; else SM_##L##_STREAM("v=" << ls::arg()); for (int i = 0; i < 2; ++i) SM_##L##_NAMED("mc", "v=%d", ls::arg()); }
void branches(int v, bool b) { B1(ALL, 0) B1(FINEST, 1) B1(VERBOSE, 2) B1(FINER, 3) B1(TRACE, 4) B1(FINE, 5) B1(DEBUG, 6) B1(INFO, 7) B1(WARN, 8) B1(ERROR, 9) B1(FATAL, 10) }
ls::Reg reg(MINSEV, SMCONSOLE_PACKAGE_NAME, {S(ALL, 0), S(FINEST, 1), S(VERBOSE, 2), S(FINER, 3), S(TRACE, 4), S(FINE, 5), S(DEBUG, 6), S(INFO, 7), S(WARN, 8), S(ERROR, 9), S(FATAL, 10)}, &branches);
}
