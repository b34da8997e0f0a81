// M04 the tool that lists matrix archives: its main() runs in child processes with the standard streams in files.
#include "vf.hpp"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include <sm/MatrixArchive.hpp>
#define main lsma_main
#include <lsma.cpp>
#undef main
namespace {
std::string slurp(const std::string& f) { std::string s; FILE* i = fopen(f.c_str(), "rb"); if (!i) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
void spit(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
struct Run { int rc; std::string out, err; };
Run lsma(vf::Ctx& c, std::vector<std::string> args) {
  std::string so = c.scratch() + "/out", se = c.scratch() + "/err"; Run r;
  std::vector<char*> v; args.insert(args.begin(), "lsma"); for (auto& a : args) v.push_back(&a[0]); v.push_back(NULL);
  std::cout.flush(); fflush(NULL);
  pid_t p = fork();
  if (!p) {
    int o = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(o, 1); dup2(e, 2); int rc;
    try { rc = lsma_main(args.size(), v.data()); } catch (const std::exception& x) { rc = 134; }  // ends the process with a message
    std::cout.flush(); fflush(NULL); _exit(rc);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); r.out = slurp(so); r.err = slurp(se);
  c.check(r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "memory", r.err.substr(0, 600)); return r;
}
struct E { bool str; std::string name, text; Eigen::MatrixXd m; };
std::vector<E> entries() {
  std::vector<E> r; auto s = [&](const char* n, const char* t) { r.push_back(E{true, n, t, Eigen::MatrixXd()}); }; auto m = [&](const char* n, Eigen::MatrixXd x) { r.push_back(E{false, n, "", x}); };
  s("s", ""); m("a", Eigen::MatrixXd::Constant(1, 1, 0.5)); Eigen::MatrixXd x(2, 3); x << 1, -2, 3.25, 0, 1e10, -0.125; m("M_2", x); s("text_of_S", "a b : c"); m("Z", Eigen::MatrixXd::Zero(3, 1)); m("bb", Eigen::RowVector4d(1, 2, 3, 4)); s("B", "12");
  return r;
}
// Reads what lsma printed: false if it is not the listing of exactly these entries, in any order.
bool listing(vf::Ctx& c, const std::string& out, std::vector<std::pair<std::string, E>> want) {
  std::istringstream in(out); std::string l; std::vector<std::string> lines; while (std::getline(in, l)) lines.push_back(l);
  size_t k = 0;
  while (k < lines.size()) {
    bool found = false;
    for (size_t w = 0; w < want.size() && !found; ++w) {
      const E& e = want[w].second; std::string head = want[w].first + e.name + " :"; if (lines[k].compare(0, head.size(), head)) continue;
      std::string rest = lines[k].substr(head.size());
      if (e.str) { if (rest != " " + e.text) continue; ++k; found = true; want.erase(want.begin() + w); break; }
      if (!rest.empty() || k + e.m.rows() >= lines.size()) continue;
      bool ok = true;
      for (int i = 0; ok && i < e.m.rows(); ++i) {
        std::istringstream row(lines[k + 1 + i]); double d; int n = 0;
        while (row >> d) { if (n < e.m.cols() && std::fabs(d - e.m(i, n)) > 1e-5 * std::fabs(e.m(i, n))) ok = false; ++n; }
        if (n != e.m.cols() || !row.eof()) ok = false;
      }
      if (ok) { k += 1 + e.m.rows(); found = true; want.erase(want.begin() + w); break; }
    }
    if (!found) return c.check(false, "listing", "line " + vf::quote(lines[k]) + " belongs to no entry"), false;
  }
  return c.check(want.empty(), "listing-missing", want.empty() ? "" : "entry " + want[0].first + want[0].second.name + " is not listed");
}
}
VF_PART(M04_listing, 4) {
  std::vector<E> es = entries(); int n = es.size(); std::string f[3] = {c.scratch() + "/one.ama", c.scratch() + "/two.ama", c.scratch() + "/a b.ama"};
  auto write = [&](const std::string& p, int m, std::vector<std::pair<std::string, E>>& w, const std::string& prefix) { sm::MatrixArchive a; for (int i = 0; i < n; ++i) if (m >> i & 1) { if (es[i].str) a.setString(es[i].name, es[i].text); else a.setMatrix(es[i].name, es[i].m); w.push_back({prefix, es[i]}); } a.save(p); };
  uint64_t cnt = 0;
  // every set of entries in one archive; then pairs and triples of archives
  for (int m = 0; m < (1 << n); ++m) {
    if (!c.mine(cnt++)) continue;
    c.cur("one archive with entries %x", m); std::vector<std::pair<std::string, E>> w; write(f[0], m, w, "");
    Run r = lsma(c, {f[0]}); c.check(r.rc == 0, "exit", "exit code " + vf::str(r.rc)); listing(c, r.out, w); c.state("1," + vf::str(m)); c.transition(); c.trace();
  }
  for (int m = 0; m < (1 << n); ++m) for (int k : {0, 1, 2, 5, 42, 127}) for (int l = -1; l < 2; ++l) {
    if (!c.mine(cnt++)) continue;
    c.cur("archives with entries %x, %x%s", m, k, l < 0 ? "" : l ? ", 42" : ", first"); std::vector<std::pair<std::string, E>> w; std::vector<std::string> a;
    std::vector<std::pair<std::string, E>> w0; write(f[0], m, w, f[0] + ":"); w0 = w; write(f[1], k, w, f[1] + ":"); a = {f[0], f[1]};
    if (l == 1) { write(f[2], 42, w, f[2] + ":"); a.push_back(f[2]); }
    if (l == 0) { w.insert(w.end(), w0.begin(), w0.end()); a.push_back(f[0]); }
    Run r = lsma(c, a); c.check(r.rc == 0, "exit", "exit code " + vf::str(r.rc)); listing(c, r.out, w);
    // archives come in the order given
    size_t p1 = r.out.find(f[0] + ":"), p2 = r.out.find(f[1] + ":"); if (m && k) c.check(p1 < p2, "order", "the archives are listed in another order than given");
    c.state(vf::str(m) + "," + vf::str(k) + "," + vf::str(l)); c.transition(); c.trace();
  }
  c.sample("two archives: one.ama:s : , one.ama:a :, 0.5, two.ama:B : 12");
}
// every sequence of up to 5 (6) of 3 archives: the listings of each one, in this order
VF_PART(M04_orders, 4) {
  std::vector<E> es = entries(); std::string f[3] = {c.scratch() + "/one.ama", c.scratch() + "/two.ama", c.scratch() + "/a b.ama"}; int sets[3] = {3, 42, 112};
  std::string block[3]; std::vector<std::pair<std::string, E>> want[3];
  for (int a = 0; a < 3; ++a) { sm::MatrixArchive m; for (size_t i = 0; i < es.size(); ++i) if (sets[a] >> i & 1) { if (es[i].str) m.setString(es[i].name, es[i].text); else m.setMatrix(es[i].name, es[i].m); want[a].push_back({f[a] + ":", es[i]}); } m.save(f[a]); }
  uint64_t cnt = 0;
  for (int len = 2; len <= (c.thorough ? 6 : 5); ++len) for (int h = 0; h < std::pow(3, len); ++h) {
    if (!c.mine(cnt++)) continue;
    std::vector<std::string> a; std::vector<std::pair<std::string, E>> w; std::vector<int> order; int x = h; std::string nm; for (int i = 0; i < len; ++i, x /= 3) { a.push_back(f[x % 3]); order.push_back(x % 3); w.insert(w.end(), want[x % 3].begin(), want[x % 3].end()); nm += vf::str(x % 3) + " "; }
    c.cur("archives %s", nm.c_str()); Run r = lsma(c, a); c.check(r.rc == 0, "exit", "exit code " + vf::str(r.rc)); if (!listing(c, r.out, w)) continue;
    std::vector<int> seen; std::istringstream in(r.out); std::string l; while (std::getline(in, l)) for (int k = 0; k < 3; ++k) if (!l.compare(0, f[k].size() + 1, f[k] + ":")) seen.push_back(k);
    std::vector<int> exp; for (int o : order) exp.insert(exp.end(), want[o].size(), o); c.check(seen == exp, "order", "the entries of the archives are listed in another order"); c.state(nm); c.transition(len); c.trace();
  }
  c.sample("one two one: the entries of one, of two and again of one");
}
VF_PART(M04_failures, 4) {
  c.cur("no argument"); Run r = lsma(c, {}); c.check(r.rc != 0, "usage-exit", "exit code 0 without an archive"); c.check(!r.err.empty(), "usage", "no usage message"); c.check(r.out.empty(), "usage-output", "output without an archive"); c.eval();
  std::string good = c.scratch() + "/good.ama", bad = c.scratch() + "/bad.ama"; { sm::MatrixArchive a; a.setString("s", "t"); a.setScalar("x", 1); a.setMatrix("y", Eigen::Matrix2d::Identity()); a.save(good); }
  std::string g = slurp(good); std::set<size_t> whole = {0};
  { sm::MatrixArchive a; a.setScalar("x", 1); a.save(bad); size_t one = slurp(bad).size(); sm::MatrixArchive b; b.setMatrix("y", Eigen::Matrix2d::Identity()); b.save(bad); size_t two = slurp(bad).size(); whole = {0, one, one + two, g.size(), g.size() - one - two, g.size() - two}; }
  auto run = [&](const std::string& what, const std::string& p) {
    for (int w = 0; w < 3; ++w) { c.cur("%s, as archive %d", what.c_str(), w); std::vector<std::string> a; if (w == 1) a = {good, p}; else if (w == 2) a = {p, good}; else a = {p}; Run r = lsma(c, a); c.check(r.rc != 0, "silent", "exit code 0"); c.eval(); c.state(what + vf::str(w)); c.transition(); c.trace(); }
  };
  run("missing file", c.scratch() + "/absent"); run("directory", c.scratch()); run("empty name", "");
  for (size_t k = 1; k < g.size(); ++k) { if (whole.count(k) || !c.mine(k)) continue; spit(bad, g.substr(0, k)); run("file cut after " + vf::str(k) + " bytes", bad); }
  c.sample("file cut after 10 bytes: nonzero exit");
}
