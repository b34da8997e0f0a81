// L05: the logging package's assertions.
#include "vf.hpp"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sm/logging.hpp>
#include <sm/logging/assert.h>
#include <sm/logging/Logger.hpp>
#include <sm/logging/LoggingEvent.hpp>
using namespace sm::logging;
namespace {
int fd;
struct Pipe : public Logger {
  void logImplementation(const LoggingEvent& e) override { std::string s = std::to_string((int)e.level) + ":" + e.message + "\n"; if (write(fd, s.data(), s.size())) {} }
};
int n, cmds;
int ev(int x) { if (++n == 2 && write(fd, "evaluated again\n", 16)) {} return x; }
int evc(int x) { ++n; return x; }
// runs body in a child; returns what was logged, sets killed
std::string child(const std::function<void()>& f, bool& killed) {
  int p[2]; if (pipe(p)) abort();
  pid_t k = fork();
  if (!k) { close(p[0]); fd = p[1]; signal(SIGTRAP, SIG_DFL); signal(SIGABRT, SIG_DFL); setLogger(boost::shared_ptr<Logger>(new Pipe)); f(); _exit(0); }
  close(p[1]); std::string s; char b[4096]; ssize_t r; while ((r = read(p[0], b, sizeof b)) > 0) s.append(b, r); close(p[0]);
  int st; waitpid(k, &st, 0); killed = WIFSIGNALED(st); return s;
}
}
VF_PART(L05_assertions) {
  // all comparisons over a small domain, as the documentation writes them: unparenthesised
  for (int x = -2; x <= 3; ++x) for (int y = -2; y <= 3; ++y) for (int op = 0; op < 8; ++op) for (int mac = 0; mac < 3; ++mac) {
    static const char* O[] = {"x > y", "x == y", "x < y", "x != y", "x & 1 == y", "x || y", "x && y", "x ? y : 0"};
    c.cur("%s with x=%d y=%d, macro %d", O[op], x, y, mac);
    bool vals[] = {x > y, x == y, x < y, x != y, (x & 1 == y) != 0, x || y, x && y, (x ? y : 0) != 0};
    bool want = vals[op]; bool killed = false; c.eval(!want);
    if (mac == 2) {
      cmds = n = 0;
      switch (op) {
        case 0: SM_ASSERT_CMD(evc(x) > y, ++cmds); break; case 1: SM_ASSERT_CMD(evc(x) == y, ++cmds); break; case 2: SM_ASSERT_CMD(evc(x) < y, ++cmds); break; case 3: SM_ASSERT_CMD(evc(x) != y, ++cmds); break;
        case 4: SM_ASSERT_CMD(evc(x) & 1 == y, ++cmds); break; case 5: SM_ASSERT_CMD(evc(x) || y, ++cmds); break; case 6: SM_ASSERT_CMD(evc(x) && y, ++cmds); break; case 7: SM_ASSERT_CMD(evc(x) ? y : 0, ++cmds); break;
      }
      if (cmds != (want ? 0 : 1)) c.fail("command", "the command runs %d times although the condition is %s", cmds, want ? "true" : "false");
      if (n != 1) c.fail("evaluations", "SM_ASSERT_CMD evaluates its condition %d times", n);
      n = 0; continue;
    }
    std::string s = child([&] {
      if (mac == 0) switch (op) {
        case 0: SM_ASSERT(ev(x) > y); break; case 1: SM_ASSERT(ev(x) == y); break; case 2: SM_ASSERT(ev(x) < y); break; case 3: SM_ASSERT(ev(x) != y); break;
        case 4: SM_ASSERT(ev(x) & 1 == y); break; case 5: SM_ASSERT(ev(x) || y); break; case 6: SM_ASSERT(ev(x) && y); break; case 7: SM_ASSERT(ev(x) ? y : 0); break;
      } else switch (op) {
        case 0: SM_ASSERT_MSG(ev(x) > y, "because %d %s", x, "of that"); break; case 1: SM_ASSERT_MSG(ev(x) == y, "because %d %s", x, "of that"); break; case 2: SM_ASSERT_MSG(ev(x) < y, "because %d %s", x, "of that"); break; case 3: SM_ASSERT_MSG(ev(x) != y, "because %d %s", x, "of that"); break;
        case 4: SM_ASSERT_MSG(ev(x) & 1 == y, "because %d %s", x, "of that"); break; case 5: SM_ASSERT_MSG(ev(x) || y, "because %d %s", x, "of that"); break; case 6: SM_ASSERT_MSG(ev(x) && y, "because %d %s", x, "of that"); break; case 7: SM_ASSERT_MSG(ev(x) ? y : 0, "because %d %s", x, "of that"); break;
      }
      if (n != 1 && write(fd, "not evaluated once\n", 19)) {}
    }, killed);
    if (s.find("evaluated ") != std::string::npos) c.fail("evaluations", "the condition is not evaluated exactly once: %s", vf::quote(s).c_str());
    if (killed != !want) c.fail("stop", "the program %s although the condition is %s", killed ? "stops" : "goes on", want ? "true" : "false");
    if (want && !s.empty()) c.fail("noise", "a true assertion logs %s", vf::quote(s).c_str());
    if (!want) {
      if (s.find("10:") != 0 || s.find("ASSERTION FAILED") == std::string::npos || s.find(__FILE__) == std::string::npos) c.fail("message", "a failed assertion logs %s", vf::quote(s).c_str());
      if (mac == 1 && s.find("because " + std::to_string(x) + " of that") == std::string::npos) c.fail("message", "the given message is missing from %s", vf::quote(s).c_str());
      std::string cond = std::string(O[op]); cond.replace(0, 1, "ev(x)");
      if (s.find(cond) == std::string::npos) c.fail("message", "the condition is missing from %s", vf::quote(s).c_str());
    }
  }
  { c.cur("SM_BREAK"); bool k; std::string s = child([] { SM_BREAK(); }, k); c.eval(); if (!k || s.find("10:") != 0) c.fail("break", "SM_BREAK does not stop the program with a fatal message"); }
  c.sample("SM_ASSERT_CMD(x > y, command) with x=-1 y=0");
}
