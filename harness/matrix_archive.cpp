// M01 archive operations, M02 file format and round trips, M03 I/O faults and
// damaged files.
#include "vf.hpp"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <limits>
#include <new>
#include <sm/MatrixArchive.hpp>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
using sm::MatrixArchive; using sm::MatrixArchiveException;
// ---- fault injection below the C++ streams: writes and reads of descriptors > 2
static struct { bool on; long wleft, rleft; int chunk; bool closefail; int eintr; } F;
static void disarm() { F.on = false; }
static void arm(long w, long r, int chunk, bool cf) { F.on = true; F.wleft = w; F.rleft = r; F.chunk = chunk; F.closefail = cf; }
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
  if (F.on && fd > 2) {
    if (F.wleft >= 0) { if (F.wleft == 0 && n) { errno = ENOSPC; return -1; } n = std::min(n, (size_t)F.wleft); F.wleft -= n; }
    if (F.chunk > 0 && n > (size_t)F.chunk) n = F.chunk;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (!F.on || fd <= 2) return syscall(SYS_writev, fd, v, k);
  for (int i = 0; i < k; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t read(int fd, void* b, size_t n) {
  if (F.on && fd > 2) {
    if (F.rleft >= 0) { if (F.rleft == 0 && n) { errno = EIO; return -1; } n = std::min(n, (size_t)F.rleft); }
    if (F.chunk > 0 && n > (size_t)F.chunk) n = F.chunk;
    ssize_t r = syscall(SYS_read, fd, b, n); if (r > 0 && F.rleft >= 0) F.rleft -= r; return r;
  }
  return syscall(SYS_read, fd, b, n);
}
}
// A damaged size field may ask for anything: more than the sandbox should pay for is refused.
void* operator new(size_t n) { if (n > (200u << 20)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
namespace {
struct V { bool str; std::string s; long r, c; std::vector<uint64_t> d; V() : str(false), r(0), c(0) {} bool operator==(const V& o) const { return str == o.str && s == o.s && r == o.r && c == o.c && d == o.d; } };
typedef std::map<std::string, V> Mod;
V S(const std::string& s) { V v; v.str = true; v.s = s; return v; }
V M(const Eigen::MatrixXd& m) { V v; v.r = m.rows(); v.c = m.cols(); v.d.resize(m.size()); if (m.size()) memcpy(v.d.data(), m.data(), 8 * m.size()); return v; }
Eigen::MatrixXd E(const V& v) { Eigen::MatrixXd m(v.r, v.c); if (m.size()) memcpy(m.data(), v.d.data(), 8 * m.size()); return m; }
std::string show(const V& v) { return v.str ? vf::quote(v.s) : "[" + vf::str(v.r) + "x" + vf::str(v.c) + "]"; }
std::string key(const Mod& m) { std::string k; for (auto& p : m) { k += p.first + "=" + show(p.second); for (auto x : p.second.d) k += "," + vf::str(x); k += ";"; } return k; }
template <class F> bool throws(F f) { try { f(); } catch (const MatrixArchiveException&) { return true; } return false; }
// every query of the archive against the reference
void observe(vf::Ctx& c, MatrixArchive& a, const Mod& m, const std::vector<std::string>& names) {
  size_t ns = 0, nm = 0; for (auto& p : m) (p.second.str ? ns : nm)++;
  c.check(a.sizeStrings() == ns && a.sizeMatrices() == nm && a.size() == ns + nm, "size", "sizes " + vf::str(a.sizeMatrices()) + "+" + vf::str(a.sizeStrings()) + " instead of " + vf::str(nm) + "+" + vf::str(ns));
  auto it = a.begin(); for (auto& p : m) if (!p.second.str) { if (it == a.end() || it->first != p.first || !(M(it->second) == p.second)) { c.failpl("iterate", "iteration misses " + p.first); break; } ++it; }
  if (it != a.end()) c.failpl("iterate", "extra matrix " + it->first);
  c.check(a.getStrings().size() == ns, "strings", "getStrings");
  const MatrixArchive& ca = a;
  for (auto& n : names) {
    auto p = m.find(n); bool mat = p != m.end() && !p->second.str, str = p != m.end() && p->second.str;
    c.check((a.find(n) != a.end()) == mat, "find", "find " + n);
    Eigen::MatrixXd o; Eigen::VectorXd ov; double os = 0; std::string ostr;
    bool t1 = throws([&] { a.getMatrix(n, o); }), t2 = throws([&] { ca.getMatrix(n); }), t3 = throws([&] { a.getMatrix(n); });
    c.check(t1 == !mat && t2 == !mat && t3 == !mat, "getMatrix", "getMatrix " + n);
    if (mat && !t1 && !t2 && !t3) c.check(M(o) == p->second && M(ca.getMatrix(n)) == p->second && M(a.getMatrix(n)) == p->second, "getMatrix", "value of " + n);
    bool vec = mat && p->second.c == 1, sc = mat && p->second.c == 1 && p->second.r == 1;
    bool tv = throws([&] { a.getVector(n, ov); }); c.check(tv == !vec, "getVector", "getVector " + n); if (vec && !tv) c.check(M(ov) == p->second, "getVector", "value of " + n);
    bool ts = throws([&] { a.getScalar(n, os); }); c.check(ts == !sc && throws([&] { a.getScalar(n); }) == !sc, "getScalar", "getScalar " + n); if (sc && !ts) { uint64_t b; memcpy(&b, &os, 8); double o2 = a.getScalar(n); uint64_t b2; memcpy(&b2, &o2, 8); c.check(b == p->second.d[0] && b2 == b, "getScalar", "value of " + n); }
    bool tt = throws([&] { a.getString(n, ostr); }); c.check(tt == !str && throws([&] { ca.getString(n); }) == !str && throws([&] { a.getString(n); }) == !str, "getString", "getString " + n);
    if (str && !tt) c.check(ostr == p->second.s && ca.getString(n) == p->second.s && a.getStrings().count(n) && a.getStrings().find(n)->second == p->second.s, "getString", "value of " + n);
  }
}
// ---- independent reader and writer of the documented block layout
void put32(std::string& o, uint32_t v) { for (int i = 0; i < 4; ++i) o += (char)(v >> 8 * i); }
std::string block(const std::string& name, const V& v) {
  std::string o(1, v.str ? 'S' : 'A'); o += std::string(32 - name.size(), ' ') + name;
  if (v.str) { put32(o, v.s.size()); o += v.s; } else { put32(o, v.r); put32(o, v.c); for (auto x : v.d) for (int i = 0; i < 8; ++i) o += (char)(x >> 8 * i); }
  return o + "B";
}
uint32_t get32(const std::string& s, size_t p) { uint32_t v = 0; for (int i = 3; i >= 0; --i) v = v << 8 | (uint8_t)s[p + i]; return v; }
bool parse(const std::string& s, std::vector<std::pair<std::string, V>>& out) {
  size_t p = 0;
  while (p < s.size()) {
    char k = s[p++]; if ((k != 'A' && k != 'S') || p + 32 > s.size()) return false;
    std::string n = s.substr(p, 32); p += 32; n = n.substr(0, n.find('\0')); size_t a = n.find_first_not_of(" \t\n\v\f\r"), b = n.find_last_not_of(" \t\n\v\f\r"); if (a == std::string::npos) return false; n = n.substr(a, b - a + 1);
    V v;
    if (k == 'S') { if (p + 4 > s.size()) return false; uint32_t l = get32(s, p); p += 4; if (p + l + 1 > s.size()) return false; v.str = true; v.s = s.substr(p, l); p += l; }
    else { if (p + 8 > s.size()) return false; v.r = get32(s, p); v.c = get32(s, p + 4); p += 8; size_t l = (size_t)v.r * v.c; if (p + 8 * l + 1 > s.size()) return false; v.d.resize(l); if (l) memcpy(v.d.data(), s.data() + p, 8 * l); p += 8 * l; }
    if (s[p++] != 'B') return false;
    out.push_back({n, v});
  }
  return true;
}
std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
void spit(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
void fill(MatrixArchive& a, const Mod& m) { for (auto& p : m) { if (p.second.str) a.setString(p.first, p.second.s); else a.setMatrix(p.first, E(p.second)); } }
Eigen::MatrixXd seq(int r, int c, double s) { Eigen::MatrixXd m(r, c); for (int i = 0; i < m.size(); ++i) m.data()[i] = s + i; return m; }
bool validname(const std::string& n) { if (n.empty() || n.size() > 32 || !isalpha((unsigned char)n[0])) return false; for (char ch : n) if (!isalnum((unsigned char)ch) && ch != '_') return false; return true; }
// ---- operations
struct Op { std::string name; std::function<bool(MatrixArchive&)> run; std::function<bool(Mod&)> ref; };   // both: true = refused with an exception
std::vector<Op> ops(const std::string& dir, const std::vector<std::string>& names) {
  std::vector<Op> o;
  for (auto& n : names) {
    bool bad = !validname(n);
    auto add = [&](const std::string& what, std::function<void(MatrixArchive&)> f, V v, bool refuse) {
      o.push_back(Op{what + "(" + n + ")", [f](MatrixArchive& a) { return throws([&] { f(a); }); }, [n, v, refuse](Mod& m) { if (refuse) return true; m[n] = v; return false; }});
    };
    Eigen::MatrixXd m23 = seq(2, 3, 1), z(0, 2); Eigen::VectorXd v3 = seq(3, 1, 7);
    add("setMatrix 2x3", [n, m23](MatrixArchive& a) { a.setMatrix(n, m23); }, M(m23), bad);
    add("setMatrixXd 0x2", [n, z](MatrixArchive& a) { a.setMatrixXd(n, z); }, M(z), bad);
    add("setMatrix expression", [n, m23](MatrixArchive& a) { a.setMatrix(n, m23.transpose() * 2.0); }, M(m23.transpose() * 2.0), bad);
    add("setVector", [n, v3](MatrixArchive& a) { a.setVector(n, v3); }, M(v3), bad);
    add("setVectorXd", [n, v3](MatrixArchive& a) { a.setVectorXd(n, v3 * 3); }, M(v3 * 3), bad);
    add("setVector of a matrix", [n, m23](MatrixArchive& a) { a.setVector(n, m23); }, V(), true);
    add("setScalar", [n](MatrixArchive& a) { a.setScalar(n, -2.5); }, M(Eigen::MatrixXd::Constant(1, 1, -2.5)), bad);
    add("setString", [n](MatrixArchive& a) { a.setString(n, "text"); }, S("text"), bad);
    add("setString empty", [n](MatrixArchive& a) { a.setString(n, ""); }, S(""), bad);
    add("createMatrix over", [n, m23](MatrixArchive& a) { a.createMatrix(n, 2, 3, true) = m23; }, M(m23), bad);
    o.push_back(Op{"createMatrix(" + n + ")", [n](MatrixArchive& a) { return throws([&] { Eigen::MatrixXd& x = a.createMatrix(n, 1, 2); x << 4, 5; }); },
                   [n, bad](Mod& m) { auto p = m.find(n); if (bad || (p != m.end() && !p->second.str)) return true; Eigen::MatrixXd x(1, 2); x << 4, 5; m[n] = M(x); return false; }});
    o.push_back(Op{"clear(" + n + ")", [n](MatrixArchive& a) { return throws([&] { a.clear(n); }); }, [n](Mod& m) { m.erase(n); return false; }});
    o.push_back(Op{"getMatrix(" + n + ").setZero", [n](MatrixArchive& a) { return throws([&] { a.getMatrix(n).setZero(); }); }, [n](Mod& m) { auto p = m.find(n); if (p == m.end() || p->second.str) return true; for (auto& x : p->second.d) x = 0; return false; }});
    o.push_back(Op{"getString(" + n + ")=", [n](MatrixArchive& a) { return throws([&] { a.getString(n) = "new"; }); }, [n](Mod& m) { auto p = m.find(n); if (p == m.end() || !p->second.str) return true; p->second.s = "new"; return false; }});
  }
  o.push_back(Op{"clear()", [](MatrixArchive& a) { a.clear(); return false; }, [](Mod& m) { m.clear(); return false; }});
  Mod f1; f1["a"] = S("file"); f1["b2"] = M(seq(2, 1, 40)); Mod f2; f2["a"] = M(seq(1, 1, 9));
  std::string p1 = dir + "/f1", p2 = dir + "/f2"; std::string b1, b2; for (auto& p : f1) b1 += block(p.first, p.second); for (auto& p : f2) b2 += block(p.first, p.second); spit(p1, b1); spit(p2, b2);
  o.push_back(Op{"load f1", [p1](MatrixArchive& a) { return throws([&] { a.load(p1); }); }, [f1](Mod& m) { for (auto& p : f1) m[p.first] = p.second; return false; }});
  o.push_back(Op{"load f2", [p2](MatrixArchive& a) { return throws([&] { a.load(boost::filesystem::path(p2)); }); }, [f2](Mod& m) { for (auto& p : f2) m[p.first] = p.second; return false; }});
  o.push_back(Op{"load f1 {b2}", [p1](MatrixArchive& a) { return throws([&] { a.load(boost::filesystem::path(p1), std::set<std::string>{"b2", "zz"}); }); }, [f1](Mod& m) { m["b2"] = f1.at("b2"); return false; }});
  std::string pn = dir + "/nofile"; o.push_back(Op{"load missing file", [pn](MatrixArchive& a) { return throws([&] { a.load(pn); }); }, [](Mod&) { return true; }});
  std::string ps = dir + "/self"; o.push_back(Op{"save, clear, load", [ps](MatrixArchive& a) { return throws([&] { a.save(ps); a.clear(); a.load(ps); }); }, [](Mod&) { return false; }});
  return o;
}
}  // namespace
VF_PART(M01_operations, 8) {
  // closure: every operation in every reachable state of the reference
  std::vector<std::string> names = {"a", "b2", "", "zz"}; std::vector<Op> O = ops(c.scratch(), {"a", "b2", ""});
  std::vector<std::pair<Mod, MatrixArchive>> Q; Q.push_back({Mod(), MatrixArchive()}); std::set<std::string> seen; seen.insert(key(Mod()));
  std::vector<std::string> path(1);
  const size_t cap = c.thorough ? 1000000 : 1200;
  for (size_t i = 0; i < Q.size() && i < cap; ++i) for (auto& op : O) {
    Mod m = Q[i].first; MatrixArchive a = Q[i].second;
    c.cur(path[i] + op.name);
    bool r = op.ref(m), g = op.run(a);
    c.check(r == g, "refusal", std::string(g ? "refused" : "accepted"));
    if (c.mine(i)) { observe(c, a, m, names); c.transition(); }   // every shard walks the same tree and looks at its share
    if (seen.insert(key(m)).second) { if (c.mine(Q.size())) { c.state(key(m)); c.trace(); } Q.push_back({m, a}); path.push_back(path[i] + op.name + "; "); if (Q.size() % 400 == 0) c.sample(path.back()); }
  }
}
VF_PART(M01_sequences, 8) {
  // without copying archives: all sequences of a smaller depth on one object
  std::vector<std::string> names = {"a", "b2", "zz"}; std::vector<Op> O = c.thorough ? ops(c.scratch(), {"a", "b2", ""}) : ops(c.scratch(), {"a"}); int n = O.size(), D = c.thorough ? 4 : 3;
  long total = 1; for (int i = 0; i < D; ++i) total *= n;
  for (long k = 0; k < total; ++k) {
    if (!c.mine(k)) continue;
    MatrixArchive a; Mod m; std::string nm; long q = k; std::vector<int> ix; for (int i = 0; i < D; ++i, q /= n) { ix.push_back(q % n); nm += O[ix[i]].name + "; "; }
    c.cur(nm); for (int i : ix) { bool r = O[i].ref(m), g = O[i].run(a); c.check(r == g, "refusal", std::string(g ? "refused " : "accepted ") + O[i].name); c.transition(); }
    observe(c, a, m, names); c.trace(); c.state(key(m));
  }
}
VF_PART(M01_names) {
  // every name length, every character at the first, a middle and the last position
  std::vector<std::string> N; for (int l = 0; l <= 40; ++l) N.push_back(std::string(l, 'n'));
  for (int ch = 0; ch < 256; ++ch) { N.push_back(std::string(1, (char)ch)); N.push_back(std::string(1, (char)ch) + "x"); N.push_back(std::string("x") + (char)ch); N.push_back(std::string("x") + (char)ch + "y"); N.push_back(std::string(31, 'q') + (char)ch); }
  std::string f = c.scratch() + "/n";
  for (auto& n : N) {
    bool ok = validname(n);
    for (int how = 0; how < 6; ++how) {
      c.cur("name %s, way %d", vf::quote(n).c_str(), how);
      MatrixArchive a; bool t = throws([&] { switch (how) { case 0: a.setMatrix(n, seq(1, 2, 3)); break; case 1: a.setVector(n, seq(2, 1, 3)); break; case 2: a.setScalar(n, 3); break; case 3: a.setString(n, "v"); break; case 4: a.setMatrixXd(n, seq(1, 2, 3)); break; case 5: a.createMatrix(n, 1, 2) = seq(1, 2, 3); break; } });
      c.check(t == !ok, "name", t ? "refused" : "accepted"); c.check(a.size() == (ok ? 1u : 0u), "name", "a refused entry was stored");
      if (ok && !t) { MatrixArchive b; if (throws([&] { a.save(f); b.load(f); })) c.failpl("name", "cannot be saved and loaded"); else c.check(b.size() == 1 && (how == 3 ? b.getStrings().count(n) == 1 : b.find(n) != b.end()), "name", "lost on the way through a file"); }
      c.transition(); c.trace(); c.state(n + vf::str(how));
    }
  }
}
namespace {
double bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
std::vector<V> values() {
  std::vector<V> v; const uint64_t SP[] = {0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff8000000001234ull, 0xfff8000000000001ull, 1, 0x7fefffffffffffffull, 0x4242424242424242ull, 0x4141414141414141ull, 0x0a0d0a0d0a0d0a0dull, 0xffffffffffffffffull, 0x1a1a1a1a00ull};
  for (int r : {0, 1, 2, 3, 17}) for (int cc : {0, 1, 2, 3, 19}) { V x; x.r = r; x.c = cc; for (int i = 0; i < r * cc; ++i) x.d.push_back(SP[i % 15] + (i >= 15 ? i : 0)); v.push_back(x); }
  for (uint64_t s : SP) { V x; x.r = x.c = 1; x.d.push_back(s); v.push_back(x); }
  for (int l : {0, 1, 2, 15, 16, 31, 255, 256, 4096, 70000}) v.push_back(S(std::string(l, 'B')));
  for (const char* t : {"A", "B", "S", "\n", "\r\n", " ", " lead and trail ", "\x1a", "\xff\xfe", "BA", "tab\t"}) v.push_back(S(t));
  v.push_back(S(std::string("\0", 1))); v.push_back(S(std::string("a\0b", 3))); std::string all; for (int i = 0; i < 256; ++i) all += (char)i; v.push_back(S(all));
  return v;
}
}
VF_PART(M02_values, 4) {
  std::vector<V> v = values(); std::string f = c.scratch() + "/v"; int k = 0;
  for (auto& x : v) for (auto& y : v) {
    if (!c.mine(k++)) continue;
    Mod m; m["first"] = x; m["second_"] = y; MatrixArchive a, b; fill(a, m);
    c.cur("save and load %s and %s", show(x).substr(0, 60).c_str(), show(y).substr(0, 60).c_str());
    int way = k % 3; std::string s;
    if (way == 0) { a.save(f); s = slurp(f); } else if (way == 1) { a.save(boost::filesystem::path(f)); s = slurp(f); } else { std::ostringstream o; a.save(o, std::set<std::string>()); s = o.str(); spit(f, s); }
    std::vector<std::pair<std::string, V>> blocks; Mod got; bool ok = parse(s, blocks); for (auto& p : blocks) got[p.first] = p.second;
    c.check(ok && blocks.size() == 2 && key(got) == key(m), "format", "the file does not follow the block layout");
    if (k % 2) b.load(f); else b.load(boost::filesystem::path(f));
    observe(c, b, m, {"first", "second_", "third"}); observe(c, a, m, {"first", "second_"}); c.transition(2); c.trace(); c.state(key(m));
  }
}
VF_PART(M02_filters) {
  // every subset of four entries and an unknown name as filter, on save, append and load
  Mod m; m["aa"] = M(seq(2, 2, 1)); m["b"] = S("bee"); m["cc"] = M(seq(3, 1, 5)); m["d"] = S(""); const char* N[] = {"aa", "b", "cc", "d", "zz"};
  std::string f = c.scratch() + "/f"; MatrixArchive a; fill(a, m);
  for (int fs = 0; fs < 32; ++fs) for (int fl = 0; fl < 32; ++fl) for (int app = 0; app < 2; ++app) {
    std::set<std::string> s, l; for (int i = 0; i < 5; ++i) { if (fs >> i & 1) s.insert(N[i]); if (fl >> i & 1) l.insert(N[i]); }
    c.cur("%s filter %d, load filter %d", app ? "append" : "save", fs, fl);
    Mod want, file; for (auto& p : m) if (s.empty() || s.count(p.first)) { file[p.first] = p.second; if (l.empty() || l.count(p.first)) want[p.first] = p.second; }
    unlink(f.c_str()); if (app) a.append(boost::filesystem::path(f), s); else a.save(boost::filesystem::path(f), s);
    std::vector<std::pair<std::string, V>> blocks; Mod got; bool ok = parse(slurp(f), blocks); for (auto& p : blocks) got[p.first] = p.second;
    c.check(ok && key(got) == key(file), app ? "append" : "save-filter", "the file holds " + key(got).substr(0, 200));
    Mod pre; pre["b"] = M(seq(1, 1, 3)); pre["keep"] = S("kept"); MatrixArchive b; fill(b, pre); b.load(boost::filesystem::path(f), l); for (auto& p : want) pre[p.first] = p.second;
    observe(c, b, pre, {"aa", "b", "cc", "d", "zz", "keep"}); c.transition(2); c.trace(); c.state(vf::str(fs) + "/" + vf::str(fl));
  }
}
VF_PART(M02_file_histories, 4) {
  // every sequence of saves and appends of three archives to one file
  Mod A[3]; A[0]["x"] = M(seq(2, 1, 1)); A[0]["y"] = S("first"); A[1]["x"] = S("now text"); A[1]["z"] = M(seq(1, 2, 8)); A[2]["y"] = M(seq(0, 3, 0)); MatrixArchive a[3]; for (int i = 0; i < 3; ++i) fill(a[i], A[i]);
  std::string f = c.scratch() + "/h"; const int D = c.thorough ? 5 : 4; long total = 1; for (int i = 0; i < D; ++i) total *= 9;
  for (long k = 0; k < total; ++k) {
    if (!c.mine(k)) continue;
    unlink(f.c_str()); std::vector<std::pair<std::string, V>> ref; bool exists = false; std::string nm; long q = k;
    for (int i = 0; i < D; ++i, q /= 9) {
      int o = q % 9, w = o % 3; nm += std::string(o < 3 ? "save " : o < 6 ? "append " : "append{x} ") + vf::str(w) + "; "; c.cur(nm);
      if (o < 3) { a[w].save(f); ref.clear(); } else if (o < 6) a[w].append(f); else a[w].append(boost::filesystem::path(f), std::set<std::string>{"x"});
      exists = true; for (auto& p : A[w]) if (o < 6 || p.first == "x") ref.push_back(p);
      c.transition();
    }
    std::vector<std::pair<std::string, V>> got; bool ok = parse(slurp(f), got); Mod want, gm; for (auto& p : ref) want[p.first] = p.second; for (auto& p : got) gm[p.first] = p.second;
    c.check(ok && got.size() == ref.size(), "append", vf::str(got.size()) + " blocks in the file instead of " + vf::str(ref.size()));
    MatrixArchive b; b.load(f); c.transition(); c.trace(); c.state(key(want)); observe(c, b, want, {"x", "y", "z"});
  }
}
// two archives that live through every sequence of changes, saves and loads of two files, which are also replaced behind their backs
VF_PART(M02_live_histories, 8) {
  typedef std::vector<std::pair<std::string, V>> File; const int K = 15, D = c.thorough ? 5 : 4; long total = 1; for (int i = 0; i < D; ++i) total *= K;
  std::string f = c.scratch() + "/lf", g = c.scratch() + "/lg"; Eigen::MatrixXd m1 = seq(2, 1, 1), m2 = seq(2, 1, 5), m3 = seq(2, 1, 70); const char* nm[K] = {"a.x=M1", "a.x=M2", "a.x=text", "a.y=M1", "a.clear(x)", "a.x(0)+=1", "a.save(f)", "a.save(f,{x})", "a.append(f)", "a.load(f)", "b.load(f)", "b.save(f)", "a.save(g)", "a.load(g)", "f is replaced"};
  std::string other = block("x", M(m3)); std::set<std::string> only = {"x"};
  for (long k = 0; k < 2 * total; ++k) {
    if (!c.mine(k)) continue;
    bool often = k >= total; long q = k % total; std::vector<int> o; std::string n = often ? "reading after each: " : ""; for (int i = 0; i < D; ++i, q /= K) { o.push_back(q % K); n += std::string(nm[o[i]]) + "; "; }
    c.cur(n); unlink(f.c_str()); unlink(g.c_str()); MatrixArchive a, b; Mod ma, mb; bool ef = false, eg = false; File ff, fg;
    auto files = [&] {
      for (int w = 0; w < 2; ++w) { bool e = w ? eg : ef; const File& want = w ? fg : ff; const std::string& p = w ? g : f; File got; if (access(p.c_str(), F_OK) == 0) { if (!c.check(e, "file", "a file that was not saved exists")) continue; bool ok = parse(slurp(p), got); auto srt = [](const File& x) { std::multimap<std::string, V> r; for (auto& e : x) r.insert(e); return r; }; c.check(ok && srt(got) == srt(want), "file", std::string("the file ") + (w ? "g" : "f") + " does not hold what was saved"); } else c.check(!e, "file", "a file that was saved does not exist"); }
      observe(c, a, ma, {"x", "y"}); observe(c, b, mb, {"x"});
    };
    auto from = [](Mod& m, const File& x) { for (auto& p : x) m[p.first] = p.second; }; auto to = [](const Mod& m) { return File(m.begin(), m.end()); };
    for (int x : o) {
      bool t = false, want = false; c.transition();
      switch (x) {
        case 0: a.setMatrix("x", m1); ma["x"] = M(m1); break; case 1: a.setMatrix("x", m2); ma["x"] = M(m2); break; case 2: a.setString("x", "text"); ma["x"] = S("text"); break; case 3: a.setMatrix("y", m1); ma["y"] = M(m1); break; case 4: a.clear("x"); ma.erase("x"); break;
        case 5: want = !ma.count("x") || ma["x"].str; t = throws([&] { a.getMatrix("x")(0) += 1; }); if (!want) { Eigen::MatrixXd z = E(ma["x"]); z(0) += 1; ma["x"] = M(z); } break;
        case 6: a.save(f); ef = true; ff = to(ma); break; case 7: a.save(boost::filesystem::path(f), only); ef = true; ff.clear(); if (ma.count("x")) ff.push_back(*ma.find("x")); break; case 8: a.append(f); ef = true; for (auto& p : ma) ff.push_back(p); break;
        case 9: want = !ef; t = throws([&] { a.load(f); }); if (ef) from(ma, ff); break; case 10: want = !ef; t = throws([&] { b.load(f); }); if (ef) from(mb, ff); break; case 11: b.save(f); ef = true; ff = to(mb); break;
        case 12: a.save(g); eg = true; fg = to(ma); break; case 13: want = !eg; t = throws([&] { a.load(g); }); if (eg) from(ma, fg); break; case 14: spit(f, other); ef = true; ff = {{"x", M(m3)}}; break;
      }
      c.check(t == want, "refused", t ? "it is refused" : "a missing entry or file is accepted"); if (often) files();
    }
    files(); c.trace(); c.state(n); c.eval();
  }
}
namespace { struct Count : public std::streambuf { uint64_t n = 0; std::string tail; int overflow(int ch) override { ++n; return ch; } std::streamsize xsputn(const char* p, std::streamsize k) override { n += k; return k; } }; }
VF_PART(M02_large) {
  // sizes around 4 GB are written in full (nothing touches the memory itself)
  vf::isolated(c, [&] { for (int cols : {8190, 8191, 8192, 8193}) {
    c.cur("65536 x %d", cols); MatrixArchive a; a.createMatrix("x", 65536, cols); Count b; std::ostream o(&b); a.save(o, std::set<std::string>());
    c.check(b.n == 42 + 8ull * 65536 * cols, "large", vf::str(b.n) + " bytes written"); c.transition(); c.trace(); c.state(vf::str(cols)); } });
}
// ------------------------------------------------------------------ M03
namespace {
Mod big() { Mod m; m["alpha"] = M(seq(2, 3, 1)); m["beta"] = S("hello\nworld"); m["gamma"] = M(seq(0, 4, 0)); m["delta"] = S(""); return m; }
}
VF_PART(M03_write_faults, 4) {
  // the device is full after k bytes, for every k, for small and buffer-sized archives
  Mod ms[2] = {big(), big()}; ms[1]["huge"] = M(seq(60, 60, 0)); ms[1]["text"] = S(std::string(9000, 'x'));
  std::string f = c.scratch() + "/w";
  for (int w = 0; w < 2; ++w) for (int how = 0; how < 3; ++how) {
    MatrixArchive a; fill(a, ms[w]); unlink(f.c_str()); a.save(f); long full = slurp(f).size(); std::string good = slurp(f);
    for (long k = 0; k <= full + 1; k += (w ? 97 : 1)) {
      if (!c.mine(k)) continue;
      if (w && k > full) k = full;
      c.cur("%s, archive %d, device full after %ld of %ld bytes", how == 0 ? "save" : how == 1 ? "append" : "save through path", w, k, full);
      unlink(f.c_str()); bool t;
      arm(k, -1, 0, false); t = throws([&] { if (how == 0) a.save(f); else if (how == 1) a.append(f); else a.save(boost::filesystem::path(f), std::set<std::string>()); }); disarm();
      std::string s = slurp(f);
      if (k < full) c.check(t, "silent-write-failure", "no error although only " + vf::str(s.size()) + " of " + vf::str(full) + " bytes were written"); else c.check(!t && s == good, "false-error", "a save that fits fails");
      c.eval(k < full);
      if (w && k == full) break;
    }
    for (int chunk : {1, 2, 7, 100}) { c.cur("short writes of %d bytes", chunk); unlink(f.c_str()); arm(-1, -1, chunk, false); bool t = throws([&] { a.save(f); }); disarm(); c.check(!t && slurp(f) == good, "short-write", "short writes damage the file"); c.eval(); }
  }
}
VF_PART(M03_truncation, 4) {
  // the file ends after k bytes, for every k
  Mod m = big(); std::string full; std::vector<std::pair<size_t, std::string>> ends; for (auto& p : m) { full += block(p.first, p.second); ends.push_back({full.size(), p.first}); }
  std::string f = c.scratch() + "/t";
  for (int pre = 0; pre < 3; ++pre) for (size_t k = 0; k <= full.size(); ++k) for (int mode = 0; mode < 2; ++mode) {
    if (!c.mine(k)) continue;
    c.cur("%s after %zu of %zu bytes, archive history %d", mode ? "read error" : "file ends", k, full.size(), pre);
    MatrixArchive b; Mod want; want["keep"] = S("kept"); b.setString("keep", "kept");
    if (pre) { spit(f, full); b.load(f); for (auto& p : m) want[p.first] = p.second; if (pre == 2) { b.clear("alpha"); want.erase("alpha"); } }
    spit(f, mode ? full : full.substr(0, k)); bool whole = k == 0 || k == full.size(); for (auto& e : ends) if (e.first == k) whole = true;
    if (mode) arm(-1, k, 0, false);
    bool t = throws([&] { b.load(f); }); disarm();
    if (mode) c.check(t, "read-error-accepted", "loading succeeds in spite of a read error"); else c.check(t == !whole, "truncation", t ? "a file of whole blocks is refused" : "a truncated file is accepted");
    if (!mode) for (auto& e : ends) if (e.first <= k) want[e.second] = m[e.second];
    if (!mode) observe(c, b, want, {"alpha", "beta", "gamma", "delta", "keep"});
    else { c.check(b.getStrings().count("keep") == 1, "collateral", "an entry that is not in the file changed"); for (auto it = b.begin(); it != b.end(); ++it) c.check(m.count(it->first) && M(it->second) == m[it->first], "garbage", "an entry holds data that was never in the file"); }
    c.eval(!whole);
  }
  for (int chunk : {1, 2, 7, 33}) { c.cur("short reads of %d bytes", chunk); spit(f, full); MatrixArchive b; arm(-1, -1, chunk, false); bool t = throws([&] { b.load(f); }); disarm(); c.check(!t, "short-read", "short reads are refused"); if (!t) observe(c, b, m, {"alpha", "beta", "gamma", "delta"}); c.eval(); }
}
VF_PART(M03_damage, 8) {
  // every byte replaced by every other value (structure bytes) or by 8 values (data)
  Mod m = big(); std::string full; for (auto& p : m) full += block(p.first, p.second); std::string f = c.scratch() + "/d";
  for (size_t k = 0; k < full.size(); ++k) for (int v = 0; v < 256; ++v) {
    if (!c.mine(k) || (uint8_t)full[k] == v) continue;
    if (!c.thorough && v % 3 && v != 'A' && v != 'B' && v != 'S' && v != ' ' && v != 1 && v != 2 && v != 128) continue;
    std::string s = full; s[k] = v; c.cur("byte %zu replaced by 0x%02x", k, v); spit(f, s);
    MatrixArchive b; b.setString("keep", "kept"); b.setMatrix("alsokeep", seq(1, 1, 2)); bool refused = false;
    try { b.load(f); } catch (const std::exception&) { refused = true; }
    std::vector<std::pair<std::string, V>> blocks; bool ok = parse(s, blocks);
    c.check(b.getStrings().count("keep") && b.find("alsokeep") != b.end(), "collateral", "an entry that is not in the file changed");
    if (!ok) c.check(refused, "damage-accepted", "a file whose blocks do not fit together is accepted");
    else { bool names = true; for (auto& p : blocks) if (!validname(p.first)) names = false;
      if (names) { Mod want; want["keep"] = S("kept"); want["alsokeep"] = M(seq(1, 1, 2)); for (auto& p : blocks) want[p.first] = p.second; c.check(!refused, "false-error", "a well-formed file is refused"); if (!refused) observe(c, b, want, {"alpha", "beta", "gamma", "delta", "keep"}); }
      else c.check(refused, "name-accepted", "an entry with an invalid name is loaded"); }
    for (auto it = b.begin(); it != b.end(); ++it) c.check(validname(it->first), "name-accepted", "entry " + vf::quote(it->first));
    for (auto& p : b.getStrings()) c.check(validname(p.first), "name-accepted", "entry " + vf::quote(p.first));
    c.eval();
  }
  c.sample("byte 33 (rows of alpha) replaced by 0xff");
}
VF_PART(M03_not_a_file) {
  std::string d = c.scratch();
  for (const char* p : {"", "/none", "/none/below", "/"}) { std::string f = d + p; if (!*p) f = "";
    c.cur("path %s", f.c_str()); MatrixArchive a; a.setScalar("x", 1); bool t = throws([&] { a.load(f); }); c.check(t && a.size() == 1, "not-a-file", "load does not fail"); c.eval();
    if (std::string(p) == "/none") continue;
    t = throws([&] { a.save(f); }); c.check(t, "not-a-file", "save does not fail"); t = throws([&] { a.append(f); }); c.check(t, "not-a-file", "append does not fail"); c.eval(); }
}

VF_PART(M02_long, 4) {
  // dimensions around the powers of two that narrower fields would hold, long names and strings
  std::string f = c.scratch() + "/l"; int k = 0; std::vector<std::pair<int, int>> ds; for (int n : {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001}) for (int w : {0, 1, 2}) { ds.push_back({n, w}); ds.push_back({w, n}); } if (c.thorough) { ds.push_back({1, 16777217}); ds.push_back({16777217, 1}); ds.push_back({3000, 3000}); }
  for (auto& d : ds) { if (!c.mine(k++)) continue; c.cur("matrix of %d x %d", d.first, d.second); MatrixArchive a, b; Eigen::MatrixXd m = seq(d.first, d.second, 3); a.setMatrix("m", m); a.setString("tail", "end"); if (k % 2) a.save(f); else a.save(boost::filesystem::path(f)); b.load(f); c.check(b.getMatrix("m").rows() == d.first && b.getMatrix("m").cols() == d.second && b.getMatrix("m") == m && b.getString("tail") == "end" && b.size() == 2, "long-matrix", "another matrix is loaded"); c.transition(2); c.trace(); c.state(vf::str(d.first) + "x" + vf::str(d.second)); }
  for (int n : {1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1000003}) { if (!c.mine(k++)) continue; c.cur("string of %d characters", n); MatrixArchive a, b; std::string s(n, ' '); for (int i = 0; i < n; ++i) s[i] = (char)(i * 7 + i / 256); a.setString("s", s); a.setScalar("z", 4); a.save(f); b.load(f); c.check(b.getString("s") == s && b.getScalar("z") == 4 && b.size() == 2, "long-string", "another string is loaded"); c.transition(2); c.trace(); c.state("s" + vf::str(n)); }
}
// many entries: every number around the powers of two, replaced, removed, filtered, appended
namespace {
std::string nm(int i) { std::string n = "e" + vf::str(i * 7919 % 1009); if (i % 3 == 1) n += std::string(32 - n.size(), i % 2 ? 'x' : '_'); else if (i % 3 == 2) n = "E_" + n; return n; }
V vm(int i) { if (i % 4 == 1) return S(std::string(i % 300, (char)(i * 13))); return M(seq(i % 5, (i / 5) % 4, i)); }
}
VF_PART(M01_many, 4) {
  int k = 0; for (int n : {3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000}) {
    if (!c.mine(k++)) continue;
    c.cur("%d entries", n);
    MatrixArchive a; Mod m; std::vector<std::string> names; for (int i = 0; i < n; ++i) { names.push_back(nm(i)); m[nm(i)] = vm(i); } fill(a, m); observe(c, a, m, names); c.state(vf::str(n)); c.transition(n);
    for (int i = 0; i < n; i += 3) { std::string x = names[i]; V v = vm(i + 1 + n); m.erase(x); m[x] = v; if (v.str) a.setString(x, v.s); else a.setMatrix(x, E(v)); c.transition(); }
    observe(c, a, m, names); for (int i = 1; i < n; i += 5) { a.clear(names[i]); m.erase(names[i]); c.transition(); } observe(c, a, m, names);
    MatrixArchive b(a); observe(c, b, m, names); b = a; a.clear(); observe(c, a, Mod(), names); observe(c, b, m, names); c.trace();
  }
}
VF_PART(M02_many, 4) {
  std::string f = c.scratch() + "/m"; int k = 0; for (int n : {2, 3, 9, 17, 33, 64, 65, 128, 129, 256, 257, 500}) {
    if (!c.mine(k++)) continue;
    c.cur("%d entries", n);
    MatrixArchive a, b, d; Mod m, half, late; std::vector<std::string> names; std::set<std::string> some; for (int i = 0; i < n; ++i) { std::string x = nm(i); names.push_back(x); m[x] = vm(i); if (i % 2) { some.insert(x); half[x] = m[x]; } } fill(a, m);
    std::vector<std::pair<std::string, V>> bl; auto same = [&](const Mod& w, const char* what) { bl.clear(); Mod got; bool ok = parse(slurp(f), bl); for (auto& p : bl) got[p.first] = p.second; c.check(ok && bl.size() == w.size() && got == w, "layout", std::string(what) + " of " + vf::str(n) + " entries"); };
    a.save(f); same(m, "save"); b.load(f); observe(c, b, m, names); b.clear(); b.load(f, some); observe(c, b, half, names);
    a.save(f, some); same(half, "filtered save"); b.clear(); b.load(f); observe(c, b, half, names);
    for (int i = 0; i < n; ++i) late[i % 3 ? "new" + vf::str(i) : names[i]] = vm(i + 2); fill(d, late); d.append(f); Mod all = half; for (auto& p : late) { names.push_back(p.first); all[p.first] = p.second; } b.clear(); b.load(f); observe(c, b, all, names);
    bl.clear(); c.check(parse(slurp(f), bl) && bl.size() == half.size() + late.size(), "layout", "append of " + vf::str(n) + " entries"); c.state(vf::str(n)); c.trace(); c.transition(5);
    // one entry at a time
    spit(f, ""); for (auto& p : m) { MatrixArchive o; Mod one; one.insert(p); fill(o, one); o.append(f); } same(m, "single appends"); b.clear(); b.load(f); observe(c, b, m, names); c.trace(); c.transition(n);
  }
}
