// Functions without state: the result for an input must not depend on what was called before.
// Every input of every function is first evaluated in a process of its own, in which nothing
// was called before; then every ordered pair of inputs is called one after the other in one
// process, for each function alone and for all functions interleaved.
#pragma once
#include "vf.hpp"
#include <sys/wait.h>
#include <unistd.h>
namespace vf {
struct Pure {
  std::string name; size_t n;                          // n inputs
  std::function<std::string(size_t)> call;             // result for an input, as bytes
  std::function<std::string(size_t)> show;             // the input as text
};
inline void put(std::string& s, double d) { s.append((const char*)&d, sizeof d); }
template <class T> std::string bytes(const T& m) { std::string s; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) put(s, (double)m(i, j)); return s; }
inline std::string bytes(double d) { std::string s; put(s, d); return s; }
inline std::string fresh(const Pure& f, size_t i) {
  int fd[2]; if (pipe(fd)) return "?"; pid_t p = fork();
  if (!p) { std::string r = f.call(i); size_t o = 0; while (o < r.size()) { ssize_t k = write(fd[1], r.data() + o, r.size() - o); if (k <= 0) break; o += k; } _exit(0); }
  close(fd[1]); std::string r; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, k); close(fd[0]); int st; waitpid(p, &st, 0); return r;
}
inline void pure(Ctx& c, const std::vector<Pure>& F) {
  std::vector<std::vector<std::string>> R(F.size());
  for (size_t f = 0; f < F.size(); ++f) if (c.mine(f) || c.mine(F.size())) for (size_t i = 0; i < F[f].n; ++i) { c.cur("%s of %s alone", F[f].name.c_str(), F[f].show(i).c_str()); R[f].push_back(fresh(F[f], i)); }
  auto one = [&](size_t f, size_t i, const char* how, size_t j) {
    if (F[f].call(i) == R[f][i]) return;
    c.cur("%s of %s after %s%s", F[f].name.c_str(), F[f].show(i).c_str(), how, F[f].show(j).c_str()); c.failpl("remembered", "the result is not the one of the first call in a new process");
  };
  for (size_t f = 0; f < F.size(); ++f) {
    if (!c.mine(f)) continue; c.cur("%s in pairs", F[f].name.c_str());
    for (size_t i = 0; i < F[f].n; ++i) for (size_t j = 0; j < F[f].n; ++j) { one(f, i, "", j); one(f, j, "", i); }
    c.transition(2 * F[f].n * F[f].n); c.evals(F[f].n * F[f].n, F[f].n * (F[f].n - 1)); c.trace(); c.state(F[f].name);
  }
  if (c.mine(F.size())) { c.cur("all functions in turn"); size_t m = 0; for (auto& f : F) m = std::max(m, f.n); for (size_t i = 0; i < m; ++i) for (size_t f = 0; f < F.size(); ++f) one(f, i % F[f].n, "the others and ", (i + m - 1) % F[f].n); for (size_t i = m; i-- > 0;) for (size_t f = F.size(); f-- > 0;) one(f, i % F[f].n, "the others and ", (i + 1) % F[f].n); c.transition(2 * m * F.size()); c.trace(); }
}
}  // namespace vf
