// P01 property tree operations and merging, P02 files, P03 strings, P04 layered
// configuration files.
#include "vf.hpp"
#include <boost/property_tree/ptree.hpp>
#include <boost/filesystem.hpp>
#include <cerrno>
#include <climits>
#include <fstream>
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using sm::BoostPropertyTree; using sm::PropertyTree; using sm::ConstPropertyTree;
typedef std::string S;
// ---- fault injection below the C++ streams
static struct { bool on; long left; } F = {false, 0};
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
  if (F.on && fd > 2) { if (F.left == 0 && n) { errno = ENOSPC; return -1; } n = std::min(n, (size_t)F.left); F.left -= n; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (!F.on || fd <= 2) return syscall(SYS_writev, fd, v, k);
  for (int i = 0; i < k; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
}
namespace {
// ---- reference: an ordered tree of strings
struct N { S d; std::vector<std::pair<S, N>> c; };
typedef std::vector<S> P;
bool operator==(const N& a, const N& b) { return a.d == b.d && a.c == b.c; }
void dump(const N& n, S& o) { o += vf::quote(n.d); if (!n.c.empty()) { o += "{"; for (auto& x : n.c) { o += x.first + "="; dump(x.second, o); o += ","; } o += "}"; } }
S dump(const N& n) { S o; dump(n, o); return o; }
N conv(const boost::property_tree::ptree& p) { N n; n.d = p.data(); for (auto& x : p) n.c.push_back({x.first, conv(x.second)}); return n; }
boost::property_tree::ptree conv(const N& n) { boost::property_tree::ptree p(n.d); for (auto& x : n.c) p.push_back({x.first, conv(x.second)}); return p; }
N content(const BoostPropertyTree& t) { N n; for (auto& x : t) n.c.push_back({x.first, conv(x.second)}); try { n.d = t.getString("/"); } catch (...) { n.d = "?"; } return n; }
P split(const S& q) { P r; S w; for (char ch : q) if (ch == '/') { if (!w.empty()) r.push_back(w); w.clear(); } else w += ch; if (!w.empty()) r.push_back(w); return r; }
P cat(P a, const P& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
P key(const P& ns, const S& k) { return !k.empty() && k[0] == '/' ? split(k) : cat(ns, split(k)); }
const N* find(const N& n, const P& p, size_t i = 0) { if (i == p.size()) return &n; for (auto& x : n.c) if (x.first == p[i]) return find(x.second, p, i + 1); return nullptr; }
void put(N& n, const P& p, const S& v, size_t i = 0) {
  if (i == p.size()) { n.d = v; return; }
  for (auto& x : n.c) if (x.first == p[i]) return put(x.second, p, v, i + 1);
  n.c.push_back({p[i], N()}); put(n.c.back().second, p, v, i + 1);
}
// ---- reference: texts as values
bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
S trim(const S& s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }
bool asInt(const S& s0, int& o) { S s = trim(s0); size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; if (i == s.size()) return false; for (size_t j = i; j < s.size(); ++j) if (!isdigit(s[j])) return false; errno = 0; long long v = strtoll(s.c_str(), 0, 10); if (errno || v < INT_MIN || v > INT_MAX) return false; o = (int)v; return true; }
bool asDouble(const S& s0, double& o) {
  S s = trim(s0); size_t i = 0, d = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
  while (i < s.size() && isdigit(s[i])) ++i, ++d; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) ++i, ++d; }
  if (!d) return false; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; size_t e = 0; while (i < s.size() && isdigit(s[i])) ++i, ++e; if (!e) return false; }
  if (i != s.size()) return false; o = strtod(s.c_str(), 0); return std::isfinite(o);
}
bool asBool(const S& s0, bool& o) { S s = trim(s0); if (s == "0" || s == "false") { o = false; return true; } if (s == "1" || s == "true") { o = true; return true; } return false; }
bool asString(const S& s, S& o) { o = s; return true; }
// outcome of a throwing accessor: 0 value, 1 bad key, 2 bad value, 3 other
template <class T, class G> int outcome(T& v, G g) { try { v = g(); return 0; } catch (const PropertyTree::InvalidKeyException&) { return 1; } catch (const PropertyTree::InvalidValueException&) { return 2; } catch (const std::exception&) { return 3; } }
template <class T> S show(int o, const T& v) { return o == 0 ? vf::str(v) : o == 1 ? "InvalidKey" : o == 2 ? "InvalidValue" : "other exception"; }
template <class T, class G, class D> void get1(vf::Ctx& c, const char* what, const N* n, bool (*as)(const S&, T&), const T& def, G g, D d, const S& where) {
  T v = T(), e = T(); int eo = !n ? 1 : as(n->d, e) ? 0 : 2; int o = outcome(v, g);
  c.check(o == eo && (o || v == e), what, S(what) + "(" + where + ") gives " + show(o, v) + " instead of " + show(eo, e));
  T ed = n && eo == 0 ? e : def, vd = T(); int od = outcome(vd, d);
  c.check(od == 0 && vd == ed, S(what) + " default", S(what) + "(" + where + ", default) gives " + show(od, vd) + " instead of " + show(0, ed));
}
void observe(vf::Ctx& c, const ConstPropertyTree& h, const N& m, const P& ns, const S& k, const S& hn) {
  const N* n = find(m, key(ns, k)); S w = hn + ", " + vf::quote(k);
  bool ex = false; int o = outcome(ex, [&] { return h.doesKeyExist(k); }); c.check(o == 0 && ex == (n != nullptr), "exists", "doesKeyExist(" + w + ") gives " + show(o, ex));
  get1<int>(c, "getInt", n, asInt, 42, [&] { return h.getInt(k); }, [&] { return h.getInt(k, 42); }, w);
  get1<double>(c, "getDouble", n, asDouble, 2.5, [&] { return h.getDouble(k); }, [&] { return h.getDouble(k, 2.5); }, w);
  get1<bool>(c, "getBool", n, asBool, true, [&] { return h.getBool(k); }, [&] { return h.getBool(k, true); }, w);
  get1<S>(c, "getString", n, asString, "dflt", [&] { return h.getString(k); }, [&] { return h.getString(k, S("dflt")); }, w);
}
N childContent(const ConstPropertyTree& t) { N n; try { n.d = t.getString(""); } catch (...) { n.d = "?"; } for (auto& x : t.getChildren()) n.c.push_back({x.key, childContent(x.pt)}); return n; }
void children(vf::Ctx& c, const ConstPropertyTree& h, const PropertyTree* ph, const N& m, const P& ns, const S& hn) {
  const N* n = find(m, ns);
  for (int k = 0; k < (ph ? 2 : 1); ++k) {
    N r; bool thrown = false; S what;
    try {
      if (k) { for (auto& x : ph->getChildren()) r.c.push_back({x.key, childContent(x.pt)}); } else for (auto& x : h.getChildren()) r.c.push_back({x.key, childContent(x.pt)});
    } catch (const std::exception& e) { thrown = true; what = e.what(); }
    if (!n) { c.check(thrown || r.c.empty(), "children", "children of the missing node " + hn); continue; }
    r.d = n->d;
    c.check(!thrown && r == *n, "children", "getChildren of " + hn + " gives " + (thrown ? "exception " + what : dump(r)) + " instead of " + dump(*n));
  }
}
struct H { S name; P ns; std::function<PropertyTree(const PropertyTree&)> make; };
const std::vector<H>& handles() {
  static std::vector<H> h = {
    {"root", {}, [](const PropertyTree& r) { return r; }},
    {"root>a", {"a"}, [](const PropertyTree& r) { return PropertyTree(r, "a"); }},
    {"root>a/>b", {"a", "b"}, [](const PropertyTree& r) { return r.getChild("a/").getChild("b"); }},
    {"root>a>/b.c", {"b.c"}, [](const PropertyTree& r) { return PropertyTree(PropertyTree(r, "a"), "/b.c"); }},
    {"root>a/b>''", {"a", "b"}, [](const PropertyTree& r) { return PropertyTree(PropertyTree(r, "a/b"), ""); }}};
  return h;
}
const std::vector<S> KEYS = {"", "/", "a", "b", "/a", "a/b", "b/", "b.c", "/b.c/a"};
struct Op { S name; int h; std::function<S(PropertyTree&, const S&)> real; std::function<S(N&, const P&)> ref; S k; };
template <class T> S sv(const T& v) { return vf::str(v); }
std::vector<Op> ops() {
  std::vector<Op> o;
  for (int h = 0; h < 4; ++h) for (auto& k : KEYS) {
    S w = "(" + handles()[h].name + ",'" + k + "',";
    auto set = [&](const S& nm, std::function<void(PropertyTree&, const S&)> r, const S& text) { o.push_back({nm + w + vf::quote(text) + ")", h, [r](PropertyTree& t, const S& kk) { r(t, kk); return S(); }, [text](N& m, const P& p) { put(m, p, text); return S(); }, k}); };
    set("setInt", [](PropertyTree& t, const S& kk) { t.setInt(kk, -7); }, "-7");
    set("setBool", [](PropertyTree& t, const S& kk) { t.setBool(kk, true); }, "true");
    set("setString", [](PropertyTree& t, const S& kk) { t.setString(kk, " x y "); }, " x y ");
    if (k != "b") set("setString", [](PropertyTree& t, const S& kk) { t.setString(kk, ""); }, "");
    set("setDouble", [](PropertyTree& t, const S& kk) { t.setDouble(kk, 0.25); }, "0.25");
    o.push_back({"getInt" + w + "5)", h, [](PropertyTree& t, const S& kk) { return sv(t.getInt(kk, 5)); }, [](N& m, const P& p) { const N* n = find(m, p); int v; if (n && asInt(n->d, v)) return sv(v); put(m, p, "5"); return S("5"); }, k});
    o.push_back({"getString" + w + "'q')", h, [](PropertyTree& t, const S& kk) { return t.getString(kk, S("q")); }, [](N& m, const P& p) { const N* n = find(m, p); if (n) return n->d; put(m, p, "q"); return S("q"); }, k});
    o.push_back({"getBool" + w + "false)", h, [](PropertyTree& t, const S& kk) { return sv(t.getBool(kk, false)); }, [](N& m, const P& p) { const N* n = find(m, p); bool v; if (n && asBool(n->d, v)) return sv(v); put(m, p, "false"); return S("0"); }, k});
    if (h < 2) o.push_back({"getDouble" + w + "0.5)", h, [](PropertyTree& t, const S& kk) { return sv(t.getDouble(kk, 0.5)); }, [](N& m, const P& p) { const N* n = find(m, p); double v; if (n && asDouble(n->d, v)) return sv(v); put(m, p, "0.5"); return S("0.5"); }, k});
  }
  return o;
}
}
VF_PART(P01_ops, 8) {
  auto O = ops(); const int depth = c.thorough ? 3 : 2;
  struct St { N m; std::vector<int> h; }; std::vector<St> front{St()}; std::set<S> seen; seen.insert(dump(N()));
  if (c.mine(0)) { c.state(dump(N())); BoostPropertyTree t; for (auto& h : handles()) { PropertyTree x = h.make(t); for (auto& k : KEYS) observe(c, x, N(), h.ns, k, h.name); children(c, x, &x, N(), h.ns, h.name); } }
  uint64_t idx = 0;
  for (int d = 0; d < depth; ++d) {
    std::vector<St> next;
    for (auto& s : front) {
      if (d > 0 && !c.mine(idx++)) { if (d + 1 < depth) for (size_t i = 0; i < O.size(); ++i) { N m = s.m; O[i].ref(m, key(handles()[O[i].h].ns, O[i].k)); if (seen.insert(dump(m)).second) { auto h = s.h; h.push_back(i); next.push_back({m, h}); } } continue; }
      for (size_t i = 0; i < O.size(); ++i) {
        S hist; for (int j : s.h) hist += O[j].name + "; "; c.cur(hist + O[i].name);
        BoostPropertyTree t; std::vector<PropertyTree> hs; for (auto& h : handles()) hs.push_back(h.make(t));
        for (int j : s.h) O[j].real(hs[O[j].h], O[j].k);
        N m = s.m; S er = O[i].ref(m, key(handles()[O[i].h].ns, O[i].k)), rr; try { rr = O[i].real(hs[O[i].h], O[i].k); } catch (const std::exception& e) { rr = S("exception ") + e.what(); }
        c.check(rr == er, "result", "returned " + rr + " instead of " + er);
        N got = content(t); c.check(got == m, "content", "tree is " + dump(got) + " instead of " + dump(m));
        c.transition(); c.trace();
        bool fresh = seen.insert(dump(m)).second;
        if (c.state(dump(m)) && (d == 0 || (i * 7 + s.h.back()) % (d == 2 ? 997 : c.thorough ? 4 : 11) == 0)) {
          for (size_t h = 0; h < hs.size(); ++h) { for (auto& k : KEYS) observe(c, hs[h], m, handles()[h].ns, k, handles()[h].name); children(c, hs[h], &hs[h], m, handles()[h].ns, handles()[h].name); ConstPropertyTree ch(t, handles()[h].ns.empty() ? "" : handles()[h].ns[0]); P ns; if (!handles()[h].ns.empty()) ns.push_back(handles()[h].ns[0]); children(c, ch, nullptr, m, ns, "const"); for (auto& k : KEYS) observe(c, ch, m, ns, k, "const child"); const ConstPropertyTree g = static_cast<const ConstPropertyTree&>(t).getChild("/a").getChild("b"); observe(c, g, m, {"a", "b"}, "", "const grandchild"); }
          c.check(content(t) == m, "query changed", "queries changed the tree to " + dump(content(t)) + " from " + dump(m));
          if (m.c.size() > 1) c.sample(hist + O[i].name);
        }
        if (fresh) { auto h = s.h; h.push_back(i); next.push_back({m, h}); }
      }
    }
    front.swap(next);
  }
}
// every sequence of a few writes and reads through views that live as long as the tree, none left out because another one led to the same content
VF_PART(P01_sequences, 8) {
  struct W { BoostPropertyTree t; PropertyTree a, ab; ConstPropertyTree ca; BoostPropertyTree copy; W() : a(t, "a"), ab(a.getChild("b")), ca(t, "a"), copy(t) {} };
  struct Q { const char* name; std::function<S(W&)> real; std::function<S(N&)> ref; };
  auto gi = [](const N& m, P p) -> S { const N* n = find(m, p); int v; return !n ? "none" : asInt(n->d, v) ? vf::str(v) : "bad"; };
  auto rd = [](std::function<int()> f) -> S { int v = 0; int o = outcome(v, f); return o == 0 ? vf::str(v) : o == 1 ? "none" : o == 2 ? "bad" : "other"; };
  std::vector<Q> O = {
    {"root a=1", [](W& w) { w.t.setInt("a", 1); return S(); }, [](N& m) { put(m, {"a"}, "1"); return S(); }},
    {"root a/b=2", [](W& w) { w.t.setInt("a/b", 2); return S(); }, [](N& m) { put(m, {"a", "b"}, "2"); return S(); }},
    {"root b=3", [](W& w) { w.t.setInt("b", 3); return S(); }, [](N& m) { put(m, {"b"}, "3"); return S(); }},
    {"a: b=x", [](W& w) { w.a.setString("b", "x"); return S(); }, [](N& m) { put(m, {"a", "b"}, "x"); return S(); }},
    {"a: /b=4", [](W& w) { w.a.setInt("/b", 4); return S(); }, [](N& m) { put(m, {"b"}, "4"); return S(); }},
    {"a/b: ''=5", [](W& w) { w.ab.setInt("", 5); return S(); }, [](N& m) { put(m, {"a", "b"}, "5"); return S(); }},
    {"root get a/b", [rd](W& w) { return rd([&] { return w.t.getInt("a/b"); }); }, [gi](N& m) { return gi(m, {"a", "b"}); }},
    {"a: get b", [rd](W& w) { return rd([&] { return w.a.getInt("b"); }); }, [gi](N& m) { return gi(m, {"a", "b"}); }},
    {"const a: get b", [rd](W& w) { return rd([&] { return w.ca.getInt("b"); }); }, [gi](N& m) { return gi(m, {"a", "b"}); }},
    {"a: get /b", [rd](W& w) { return rd([&] { return w.a.getInt("/b"); }); }, [gi](N& m) { return gi(m, {"b"}); }},
    {"a/b: get '' or 6", [](W& w) { return vf::str(w.ab.getInt("", 6)); }, [](N& m) -> S { const N* n = find(m, {"a", "b"}); int v; if (n && asInt(n->d, v)) return vf::str(v); put(m, {"a", "b"}, "6"); return "6"; }},
    {"root text a/b", [](W& w) { S v; int o = outcome(v, [&] { return w.t.getString("a/b"); }); return o ? S("none") : v; }, [](N& m) { const N* n = find(m, {"a", "b"}); return n ? n->d : S("none"); }},
    {"const a: text b", [](W& w) { S v; int o = outcome(v, [&] { return w.ca.getString("b"); }); return o ? S("none") : v; }, [](N& m) { const N* n = find(m, {"a", "b"}); return n ? n->d : S("none"); }},
    {"root double, bool a/b", [](W& w) { double v = 0; bool b = false; int o = outcome(v, [&] { return w.t.getDouble("a/b"); }), q = outcome(b, [&] { return w.a.getBool("b"); }); return show(o, v) + (o == 0 && v != 0 && v != 1 ? S() : show(q, b)); }, [](N& m) { const N* n = find(m, {"a", "b"}); double v = 0; bool b = false; int o = !n ? 1 : asDouble(n->d, v) ? 0 : 2, q = !n ? 1 : asBool(n->d, b) ? 0 : 2; if (n && asDouble(n->d, v) && v != 0 && v != 1) q = -1; return show(o, v) + (q < 0 ? S() : show(q, b)); }},
    {"const a: get c or 7", [](W& w) { return vf::str(w.ca.getInt("c", 7)); }, [](N&) -> S { return "7"; }},
    {"a: has b", [](W& w) { return vf::str(w.a.doesKeyExist("b")); }, [](N& m) { return vf::str(find(m, {"a", "b"}) != nullptr); }},
    {"update from {a/b=8,b=9}", [](W& w) { BoostPropertyTree u; u.setInt("a/b", 8); u.setInt("b", 9); w.t.update(u); return S(); }, [](N& m) { put(m, {"a"}, ""); put(m, {"a", "b"}, "8"); put(m, {"b"}, "9"); return S(); }},
  };
  const int depth = c.thorough ? 5 : 4, NO = O.size(); uint64_t total = 1; for (int d = 0; d < depth; ++d) total *= NO;
  for (uint64_t code = 0; code < total; ++code) {
    if (!c.mine(code / 64)) continue; W w; N m; S hist; uint64_t x = code;
    for (int d = 0; d < depth; ++d, x /= NO) { const Q& q = O[x % NO]; hist += S(d ? "; " : "") + q.name; c.cur(hist); S e = q.ref(m), r; try { r = q.real(w); } catch (const std::exception& ex) { r = S("exception ") + ex.what(); } c.check(r == e, "result", "gives " + r + " instead of " + e); c.transition(); }
    N got = content(w.t); c.check(got == m, "content", "tree is " + dump(got) + " instead of " + dump(m)); c.check(content(w.copy) == m, "copy", "a copy of the tree object does not share its values");
    c.state(dump(m)); c.eval(); c.trace(); if (code % 9973 == 0) c.sample(hist);
  }
}
// every accessor on every text; every value written and read back through every accessor
VF_PART(P01_values) {
  std::vector<S> T = {"", " ", "0", "1", "-7", " 12 ", "1.5", "true", "false", " true", "True", "abc", "1e3", "2", "-1", "99999999999", "2147483647", "2147483648", "-2147483648", "-2147483649", "1x", "x1", "1 2", "+5", "0x10", "1e", "e5", ".5", "5.", "1e400", "-0", "nan", "inf", "1,5", "yes", "\t3\n", "true1", "1true"};
  if (c.thorough) { const char A[] = "01-+.e x"; for (int len = 1; len <= 5; ++len) { long n = 1; for (int i = 0; i < len; ++i) n *= 8; for (long k = 0; k < n; ++k) { S s; for (long x = k, i = 0; i < len; ++i, x /= 8) s += A[x % 8]; T.push_back(s); } } }
  for (auto& s : T) {
    c.cur("text " + vf::quote(s)); BoostPropertyTree t; t.setString("k", s); N m; put(m, {"k"}, s); c.eval(!s.empty());
    // bool texts with a sign, a fraction or several digits are left open
    bool open = false; { S x = trim(s); bool b; int iv; if (!asBool(s, b) && asInt(s, iv)) open = true; }
    const N* n = find(m, {"k"});
    get1<int>(c, "getInt", n, asInt, 42, [&] { return t.getInt("k"); }, [&] { return const_cast<const BoostPropertyTree&>(t).getInt("k", 42); }, s);
    get1<double>(c, "getDouble", n, asDouble, 2.5, [&] { return t.getDouble("k"); }, [&] { return const_cast<const BoostPropertyTree&>(t).getDouble("k", 2.5); }, s);
    if (!open) get1<bool>(c, "getBool", n, asBool, true, [&] { return t.getBool("k"); }, [&] { return const_cast<const BoostPropertyTree&>(t).getBool("k", true); }, s);
    get1<S>(c, "getString", n, asString, "d", [&] { return t.getString("k"); }, [&] { return const_cast<const BoostPropertyTree&>(t).getString("k", S("d")); }, s);
  }
  std::vector<double> D = {0, 0.1, 1.0 / 3, 1e-5, 123456789.123456789, 1e22, 1e100, 1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 3.141592653589793, 0.30000000000000004, 1e15 + 0.5, 4503599627370497.5};
  for (int e = -1020; e <= 1020; e += c.thorough ? 1 : 17) { D.push_back(std::ldexp(1.0, e)); D.push_back(std::nextafter(std::ldexp(1.0, e), 0)); D.push_back(std::ldexp(1.0 / 3, e)); }
  for (double d0 : D) for (double d : {d0, -d0}) { c.cur("double %.17g", d); BoostPropertyTree t; t.setDouble("a/k", d); c.eval(d != 0); double r = t.getDouble("/a/k"); c.check(r == d, "double", "read back as " + vf::str(r)); BoostPropertyTree u; double q = u.getDouble("k", d); c.check(q == d && u.getDouble("k") == d, "double", "default"); }
  std::vector<long long> I; for (int b = 0; b < 32; ++b) for (int k = -1; k <= 1; ++k) for (int s = -1; s <= 1; s += 2) I.push_back(s * ((1LL << b) + k));
  for (long long v : I) if (v >= INT_MIN && v <= INT_MAX) { c.cur("int %lld", v); BoostPropertyTree t; t.setInt("k", (int)v); c.eval(v != 0); c.check(t.getInt("k") == v && t.getString("k") == std::to_string(v) && t.getDouble("k") == (double)v, "int", "read back as " + t.getString("k")); }
  for (bool b : {false, true}) { BoostPropertyTree t; t.setBool("k", b); c.eval(); c.check(t.getBool("k") == b && t.getString("k") == (b ? "true" : "false"), "bool", "read back as " + t.getString("k")); }
}
namespace {
// all trees with up to n values at the given places
std::vector<N> trees(const std::vector<S>& places, const std::vector<S>& vals, int n) {
  std::vector<N> r{N()}; std::set<S> seen{dump(N())}; size_t from = 0;
  for (int k = 0; k < n; ++k) { size_t to = r.size(); for (size_t i = from; i < to; ++i) for (auto& p : places) for (auto& v : vals) { N t = r[i]; put(t, split(p), v); if (seen.insert(dump(t)).second) r.push_back(t); } from = to; }
  return r;
}
bool blank(const S& s) { return trim(s).empty(); }
// merging as documented: every value of w, in order; false if a key is missing and may not be made
bool merge(N& d, const N& w, bool create, bool ignoreEmpty, const P& at, const N& node) {
  if (!(ignoreEmpty && blank(node.d))) { if (!create && !find(d, at)) return false; put(d, at, node.d); }
  for (auto& x : node.c) if (!merge(d, w, create, ignoreEmpty, cat(at, {x.first}), x.second)) return false;
  return true;
}
void values(const N& n, const P& p, std::map<P, S>& o) { o[p] = n.d; for (auto& x : n.c) values(x.second, cat(p, {x.first}), o); }
}
VF_PART(P01_update, 8) {
  auto D = trees({"a", "b", "a/b", "b/a", "x.y", "a/x.y"}, {"", "1"}, 2), W = trees({"a", "b", "a/b", "b/a", "x.y", "a/x.y", "/"}, {"", " \t", "2"}, c.thorough ? 3 : 2);
  uint64_t i = 0;
  for (auto& d : D) for (auto& w : W) {
    if (!c.mine(i++)) continue;
    for (int f = 0; f < 5; ++f) {
      c.cur("%s updated with %s, %s%s", dump(d).c_str(), dump(w).c_str(), f & 1 ? "existing only" : "create", f & 2 ? ", ignore empty" : f == 4 ? ", defaults" : "");
      BoostPropertyTree a(conv(d)), b(conv(w)); N m = d; bool create = f == 4 || !(f & 1), ign = f != 4 && (f & 2); bool ok = merge(m, w, create, ign, {}, w); c.eval(!w.c.empty()); c.transition();
      int o = 0; try { if (f == 4) a.update(b); else if (f & 2) a.update(b, create, true); else a.update(b, create); } catch (const PropertyTree::KeyNotFoundException&) { o = 1; } catch (const std::exception&) { o = 2; }
      N got = content(a); c.state(dump(d) + "|" + dump(w) + vf::str(f));
      c.check(o == (ok ? 0 : 1), "update outcome", o == 0 ? "succeeded although a key is missing" : o == 1 ? "reports a missing key" : "failed");
      if (ok) { c.check(got == m, "update", "gives " + dump(got) + " instead of " + dump(m)); }
      else { std::map<P, S> vd, vw, vg; values(d, {}, vd); values(w, {}, vw); values(got, {}, vg); bool good = vg.size() == vd.size(); for (auto& x : vg) if (!vd.count(x.first) || (x.second != vd[x.first] && !(vw.count(x.first) && vw[x.first] == x.second))) good = false; c.check(good, "update refused", "leaves " + dump(got)); }
      c.check(content(b) == w, "update source", "the source became " + dump(content(b)));
      if (f == 0 && m.c.size() > 2 && i % 97 == 0) c.sample(dump(d) + " + " + dump(w));
    }
  }
}
// ---- files
namespace {
const std::vector<S> EXT = {"xml", "json", "ini", "info"};
int depth(const N& n) { int d = 0; for (auto& x : n.c) d = std::max(d, 1 + depth(x.second)); return d; }
bool mixed(const N& n, bool root = true) { if (!root && !n.c.empty() && !n.d.empty()) return true; for (auto& x : n.c) if (mixed(x.second, false)) return true; return false; }
bool dups(const N& n) { std::set<S> s; for (auto& x : n.c) if (!s.insert(x.first).second || dups(x.second)) return true; return false; }
bool xmlKey(const S& s) { if (s.empty()) return false; for (char ch : s) if (!isalnum((unsigned char)ch) && ch != '_' && ch != '-' && ch != '.') return false; return isalpha(s[0]) || s[0] == '_'; }
void save(const BoostPropertyTree& t, const S& f, const S& e, int way) {
  if (way == 0) t.save(f); else if (way == 1) t.saveStr(f);
  else if (e == "xml") way == 2 ? t.saveXml(f) : t.saveXmlStr(f); else if (e == "json") way == 2 ? t.saveJson(f) : t.saveJsonStr(f); else if (e == "ini") way == 2 ? t.saveIni(f) : t.saveIniStr(f); else way == 2 ? t.saveInfo(f) : t.saveInfoStr(f);
}
void load(BoostPropertyTree& t, const S& f, const S& e, int way) {
  if (way == 0) t.load(f); else if (way == 1) t.loadStr(f);
  else if (e == "xml") way == 2 ? t.loadXml(f) : t.loadXmlStr(f); else if (e == "json") way == 2 ? t.loadJson(f) : t.loadJsonStr(f); else if (e == "ini") way == 2 ? t.loadIni(f) : t.loadIniStr(f); else way == 2 ? t.loadInfo(f) : t.loadInfoStr(f);
}
S slurp(const S& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
void spit(const S& f, const S& x) { std::ofstream o(f, std::ios::binary); o << x; }
void roundtrip(vf::Ctx& c, const S& dir, const N& m, const S& e, int way, bool mustSave, bool human) {
  S f = dir + "/f." + e; spit(f, "rubbish that must vanish { \"\n <");
  BoostPropertyTree t(conv(m)); S err; bool saved = true; try { save(t, f, e, way); } catch (const std::exception& x) { saved = false; err = x.what(); }
  c.check(content(t) == m, "save changed", "saving changed the tree to " + dump(content(t)));
  if (!saved) { c.check(!mustSave, "save refused", "saving as " + e + " failed: " + err); return; }
  c.check(mustSave || e != "ini" || depth(m) <= 2, "save accepted", "a tree deeper than two levels was saved as ini");
  BoostPropertyTree u; u.setString("old/key", "v"); try { load(u, f, e, (way + (int)e.size()) % 4); } catch (const std::exception& x) { c.failpl("load", e + " file just written cannot be loaded: " + x.what() + "; tree " + dump(m)); return; }
  N g = content(u), x = m; x.d = g.d; (void)human;
  if (e == "ini") std::stable_sort(x.c.begin(), x.c.end(), [](const std::pair<S, N>& a, const std::pair<S, N>& b) { return a.second.c.empty() && !b.second.c.empty(); });  // values come before sections
  c.check(g == x, "round trip", "read back from " + e + " as " + dump(g) + " instead of " + dump(x));
}
}
VF_PART(P02_trees, 4) {
  S dir = c.scratch(); uint64_t i = 0;
  std::vector<N> T = trees({"a", "b", "a/b", "a/c/d", "b/x.y", "k-1/z_2"}, {"", "1", "hello world"}, 3);
  { N n; n.c = {{"a", N()}, {"a", N()}}; n.c[0].second.d = "1"; n.c[1].second.d = "2"; T.push_back(n); N s; s.c = {{"s", n}}; T.push_back(s); N q; q.c = {{"b", N()}, {"a", N()}, {"b", N()}}; q.c[1].second.d = "7"; T.push_back(q); }
  for (auto& m : T) for (auto& e : EXT) {
    if (!c.mine(i++)) continue;
    c.cur("save and load %s as %s", dump(m).c_str(), e.c_str()); c.eval(!m.c.empty()); c.state(dump(m) + e); c.transition(2);
    bool must = e == "xml" || e == "info" || (e == "json" && !mixed(m)) || (e == "ini" && depth(m) <= 2 && !mixed(m) && !dups(m));
    roundtrip(c, dir, m, e, i / 4 % 4, must, false); if (i % 211 == 0) c.sample(dump(m) + " as " + e);
  }
}
VF_PART(P02_texts) {
  S dir = c.scratch();
  std::vector<S> V = {"", "x", "a b", " lead", "trail ", "<&>", "a\"b", "a\\b", "a;b", "#c", "[s]", "k=v", "\xc3\xa9\xe2\x82\xac", "line\nbreak", "\t", "a/b", "{b}", "'", "<!--c-->", "]]>", "\\", "\\n", "\"", "\"\"", "a,b", "&amp;", "${X}", "%s%n", "0.1", "true", "null", "//", "a: b", S(5000, 'z'), "x\n\ny", "\r\n", " \n ", "a  b", "\x7f"};
  if (c.thorough) { S A = "a \"\\;#<&{=\n/"; for (char x : A) for (char y : A) for (char z : A) V.push_back(S() + x + y + z); }
  std::vector<S> K = {"a", "a.b", "k-1", "a_b", "A", "abc123", "x.y.z", "_a"};
  for (auto& e : EXT) for (auto& v : V) for (int pos = 0; pos < 3; ++pos) for (int way = 0; way < 4; ++way) {
    if (way && (pos || v.size() > 10)) continue;
    N m; S k = K[(v.size() + pos) % K.size()]; put(m, pos == 0 ? P{k} : pos == 1 ? P{"s", k} : P{"s", "t", k}, v); put(m, pos == 1 ? P{"s", "zz"} : P{"zz"}, "end"); if (pos == 2 && e != "json" && e != "ini") put(m, {"s"}, v);
    c.cur("value %s of %s in a %s file", vf::quote(v).substr(0, 40).c_str(), k.c_str(), e.c_str()); c.eval(!v.empty()); c.state(e + dump(m));
    if (e == "ini" && (v != trim(v) || v.find('\n') != S::npos || v.find('\r') != S::npos)) continue;  // the format cannot hold these
    roundtrip(c, dir, m, e, way, !(e == "ini" && pos == 2), false);
  }
  for (auto& e : EXT) for (auto& k : K) { N m; put(m, {"s", k}, "v"); put(m, {k}, e == "json" || e == "ini" ? "" : "w"); c.cur("key %s in a %s file", k.c_str(), e.c_str()); c.eval(); roundtrip(c, dir, m, e, 0, e != "ini" || true, false); }
  // values set and read through the typed interface
  for (auto& e : EXT) { for (double d : {0.1, 1.0 / 3, -1e-300, 1.7976931348623157e308, 123456789.123456789}) { c.cur("double %.17g in a %s file", d, e.c_str()); c.eval(); BoostPropertyTree t, u; t.setDouble("s/d", d); t.setInt("s/i", INT_MIN); t.setBool("b", true); t.save(dir + "/v." + e); u.load(dir + "/v." + e); c.check(u.getDouble("s/d") == d && u.getInt("s/i") == INT_MIN && u.getBool("b"), "typed", "typed values differ"); } }
  // every file name whose extension is one edit away from a known one, a part of one, or written otherwise
  std::set<S> names = {"f", "f.", "f.txt", "f.xml.bak", "d.xml/f", "xml", "f.yaml", "f.XML", "f.Xml", "f.iniini"};
  for (auto& e : EXT) { S al = "abcdefghijklmnopqrstuvwxyz0 _-"; for (size_t i = 0; i <= e.size(); ++i) { names.insert("f." + e.substr(0, i)); names.insert("f." + e.substr(i)); names.insert("f." + e.substr(0, i) + (i < e.size() ? e.substr(i + 1) : "")); for (char x : al) { names.insert("f." + e.substr(0, i) + x + e.substr(i)); if (i < e.size()) names.insert("f." + e.substr(0, i) + x + e.substr(i + 1)); } if (i < e.size()) { S u = e; u[i] = toupper(u[i]); names.insert("f." + u); } } names.insert("f" + e); names.insert("f_" + e); }
  for (auto& e : EXT) names.erase("f." + e);
  for (auto& fs : names) { const char* f = fs.c_str(); c.cur("file name %s", f); c.eval(); BoostPropertyTree t; t.setInt("a", 1); int o = 0, p = 0; boost::filesystem::path q = dir + "/" + f; auto fmt = [](std::function<void()> g) { try { g(); } catch (const PropertyTree::InvalidFormatException&) { return 1; } catch (const std::exception&) { return 2; } return 0; }; o = fmt([&] { t.save(q); }); p = fmt([&] { t.load(q); }); bool known = false; (void)known; c.check(o == 1 && p == 1, "format", S("unknown format accepted: ") + f); c.check(t.getInt("a") == 1, "format", "tree changed"); }
}
// the XML switches; info text; files that are absent or damaged leave the tree alone
VF_PART(P02_switches) {
  S dir = c.scratch(), f = dir + "/h.xml";
  for (int hr = 0; hr < 2; ++hr) for (int ig = 0; ig < 2; ++ig) for (int pre = 0; pre < 2; ++pre) {
    BoostPropertyTree::setHumanReadableInputOutput(hr); BoostPropertyTree::setIgnoreComments(ig); c.eval();
    c.cur("human readable %d, ignore comments %d", hr, ig);
    c.check(BoostPropertyTree::isHumanReadableInputOutput() == (bool)hr && BoostPropertyTree::isIgnoreComments() == (bool)ig, "switch", "switch not stored");
    S x = "<a> v <!-- note --><b>\n 1\n</b></a>"; BoostPropertyTree t; if (pre) { spit(f, x); t.loadXml(f); } else t.loadXmlFromString(x);
    N m; put(m, {"a"}, hr ? "v" : " v "); if (!ig) { put(m, {"a", "<xmlcomment>"}, " note "); } put(m, {"a", "b"}, hr ? "1" : "\n 1\n");
    N g = content(t); auto norm = [&](N n) { if (hr) for (auto& y : n.c) { y.second.d = trim(y.second.d); for (auto& z : y.second.c) z.second.d = trim(z.second.d); } return n; };
    c.check(norm(g) == norm(m) && (!hr || g.c[0].second.c.back().second.d == "1"), "xml switches", "gives " + dump(g) + " instead of " + dump(m));
    for (auto& tree : trees({"a", "b", "a/b", "a/c"}, {"", "1", "x y"}, 2)) { c.cur("human readable %d: %s", hr, dump(tree).c_str()); c.eval(); roundtrip(c, dir, tree, "xml", 0, true, hr); if (hr && depth(tree) >= 2) { S s = slurp(dir + "/f.xml"); c.check(s.find("\n\t<") != S::npos, "human readable", "no indentation: " + s); } }
  }
  BoostPropertyTree::setHumanReadableInputOutput(false); BoostPropertyTree::setIgnoreComments(true);
  for (auto& m : trees({"a", "b", "a/b", "x.y"}, {"", "1", "x y"}, 2)) { c.cur("asInfoString of %s", dump(m).c_str()); c.eval(); BoostPropertyTree t(conv(m)); S s = t.asInfoString(); spit(dir + "/i.info", s); BoostPropertyTree u; u.loadInfo(dir + "/i.info"); N x = m; x.d = ""; N g = content(u); g.d = ""; c.check(g == x, "info string", s); }
  for (auto& e : EXT) {
    BoostPropertyTree t; t.setInt("s/a", 1); t.setString("s/b", "some text"); S file = dir + "/w." + e; t.save(file); S whole = slurp(file); N before; put(before, {"k"}, "7");
    { c.cur("absent %s file", e.c_str()); BoostPropertyTree u; u.setInt("k", 7); bool thr = false; try { u.load(dir + "/absent." + e); } catch (const std::exception&) { thr = true; } c.eval(); c.check(thr && content(u) == before, "absent", "absent file"); }
    for (size_t n = 0; n <= whole.size(); ++n) for (int k = 0; k < 3; ++k) {
      S x = k == 0 ? whole.substr(0, n) : whole; if (k == 1) { if (n == whole.size()) continue; x[n] = '{'; } if (k == 2) { if (n == whole.size()) continue; x.erase(n, 1); }
      c.cur("%s file damaged (%d) at %zu", e.c_str(), k, n); c.eval(n < whole.size()); spit(file, x); BoostPropertyTree u; u.setInt("k", 7); bool thr = false; try { u.load(file); } catch (const std::exception&) { thr = true; }
      N g = content(u); if (thr) c.check(g == before, "failed load changed the tree", dump(g)); else c.check(!find(g, {"k"}) || x.find('k') != S::npos, "load merged", "old keys remain: " + dump(g));
      if (x == whole) c.check(!thr && u.getInt("s/a") == 1 && u.getString("s/b") == "some text", "undamaged", "undamaged");
    }
  }
}
// the disk becomes full at every byte of every format
VF_PART(P02_full) {
  S dir = c.scratch();
  for (auto& e : EXT) for (int big = 0; big < 2; ++big) {
    BoostPropertyTree t; for (int i = 0; i < (big ? 1200 : 3); ++i) t.setString("s/key" + vf::str(i), "value number " + vf::str(i)); S f = dir + "/f." + e; t.save(f); S whole = slurp(f);
    for (size_t n = 0; n <= whole.size(); n += big ? (c.thorough ? 211 : 1999) : 1) {
      c.cur("%s file of %zu bytes, room for %zu", e.c_str(), whole.size(), n); c.eval(n < whole.size()); c.state(e + vf::str(n) + vf::str(big)); unlink(f.c_str());
      bool thr = false; F = {true, (long)n}; try { t.save(f); } catch (const std::exception&) { thr = true; } F.on = false;
      c.check(thr == (n < whole.size()), "disk full", thr ? "failed although there was room" : "succeeded although only part of the file was written");
      if (!thr) c.check(slurp(f) == whole, "disk full", "incomplete file reported as saved");
    }
  }
}
// one tree through sets, reads, saves and loads (also failing ones) in every order: reading must not remember an old file
VF_PART(P02_histories, 8) {
  S dir = c.scratch();
  struct W { BoostPropertyTree t, copy; PropertyTree v; W() : copy(t), v(t, "s") {} };
  static const char* names[] = {"s/a=1", "s: b=2", "read s/a", "s: read a", "s: list", "save xml", "save ini", "save json", "save info", "load xml", "load ini", "load json", "load info", "load o.xml", "load a string of xml", "load a broken file"};
  const int NO = 16, depth = c.thorough ? 5 : 4; uint64_t total = 1; for (int d = 0; d < depth; ++d) total *= NO;
  spit(dir + "/o.xml", "<s><a>9</a><c>8</c></s>"); spit(dir + "/broken.xml", "<s><a>7</a>"); spit(dir + "/broken.json", "{\"s\": {\"a\": \"7\""); spit(dir + "/broken.info", "s { a 7"); spit(dir + "/broken.ini", "[s]\na=7\n[s");
  for (uint64_t code = 0; code < total; ++code) {
    if (!c.mine(code / 64)) continue;
    W w; N m; std::map<S, N> files; S hist; uint64_t x = code; for (auto& e : EXT) unlink((dir + "/f." + e).c_str());
    auto text = [&](const P& p) { const N* n = find(m, p); return n ? n->d : S("none"); };
    for (int d = 0; d < depth; ++d, x /= NO) {
      int o = x % NO; hist += S(d ? "; " : "") + names[o]; c.cur(hist); c.transition(); bool thr = false, want = false; S got, e;
      try {
        if (o == 0) { put(m, {"s", "a"}, "1"); w.t.setInt("s/a", 1); } else if (o == 1) { put(m, {"s", "b"}, "2"); w.v.setString("b", "2"); }
        else if (o == 2 || o == 3) { e = text({"s", "a"}); int z = o == 2 ? outcome(got, [&] { return w.t.getString("s/a"); }) : outcome(got, [&] { return w.v.getString("a"); }); if (z) got = "none"; }
        else if (o == 4) { const N* n = find(m, {"s"}); if (n) { N l; for (auto& y : w.v.getChildren()) l.c.push_back({y.key, childContent(y.pt)}); got = dump(l); e = dump(*n); } }
        else if (o < 9) { S ex = EXT[o - 5]; save(w.t, dir + "/f." + ex, ex, d % 2 ? 0 : 2); files[ex] = m; }
        else if (o < 13) { S ex = EXT[o - 9]; want = !files.count(ex); if (!want) m = files[ex]; load(w.t, dir + "/f." + ex, ex, d % 2 ? 2 : 0); }
        else if (o == 13) { m = N(); put(m, {"s", "a"}, "9"); put(m, {"s", "c"}, "8"); w.t.load(dir + "/o.xml"); }
        else if (o == 14) { m = N(); put(m, {"s", "a"}, "6"); w.t.loadXmlFromString("<s><a>6</a></s>"); }
        else { want = true; S ex = EXT[(code + d) % 4]; load(w.t, dir + "/broken." + ex, ex, 0); }
      } catch (const std::exception& q) { thr = true; if (!want) got = q.what(); }
      c.check(thr == want, "outcome", S(names[o]) + (thr ? " failed: " + got : " succeeded")); c.check(thr || got == e, "result", S(names[o]) + " gives " + got + " instead of " + e);
    }
    N got = content(w.t); m.d = got.d; c.check(got == m, "content", "tree is " + dump(got) + " instead of " + dump(m)); N cp = content(w.copy); cp.d = got.d; c.check(cp == m, "copy", "a copy of the tree object does not share its values");
    { S v; int z = outcome(v, [&] { return w.v.getString("a"); }); c.check((z ? S("none") : v) == text({"s", "a"}), "view", "a view reads " + v); }
    c.state(dump(m)); c.eval(); c.trace(); if (code % 9973 == 0) c.sample(hist);
  }
}
// ---- strings: phrases over a small alphabet
namespace {
// reference: phrase = key('/'key)* [ '=' value ] [ '{' list '}' ] ; list = phrase (',' phrase)*
// returns false if s is not of this form
struct Parse {
  const std::vector<S>& t; size_t i;
  bool word(size_t j) const { return j < t.size() && isalnum((unsigned char)t[j][0]); }
  bool list(N& n, bool inner) {
    for (;;) {
      if (!phrase(n)) return false;
      if (i < t.size() && t[i] == ",") { ++i; continue; }
      return inner ? i < t.size() && t[i] == "}" : i == t.size();
    }
  }
  bool phrase(N& n) {
    if (!word(i)) return false;
    N k; S name = t[i++];
    if (i < t.size() && t[i] == "/") { ++i; if (!phrase(k)) return false; }
    else { if (i < t.size() && t[i] == "=") { ++i; if (!word(i)) return false; k.d = t[i++]; }
      if (i < t.size() && t[i] == "{") { ++i; if (i < t.size() && t[i] == "}") ; else if (!list(k, true)) return false; ++i; } }
    n.c.push_back({name, k}); return true;
  }
};
}
VF_PART(P03_strings, 8) {
  std::vector<S> A = {"a", "b1", "=", "/", "{", "}", ","}; const int L = c.thorough ? 9 : 7; long wf = 0;
  for (int len = 0; len <= L; ++len) {
    uint64_t n = 1; for (int i = 0; i < len; ++i) n *= A.size();
    for (uint64_t k = 0; k < n; ++k) {
      if (!c.mine(k / 7)) continue;
      std::vector<S> t; uint64_t x = k; for (int i = 0; i < len; ++i, x /= A.size()) t.push_back(A[x % A.size()]);
      bool adj = false; for (int i = 0; i + 1 < len; ++i) if (isalnum((unsigned char)t[i][0]) && isalnum((unsigned char)t[i + 1][0])) adj = true; if (adj) continue;
      S s; for (auto& y : t) s += y; N m; Parse p{t, 0}; bool ok = len == 0 || p.list(m, false);
      if (!ok && k % 5 && len > 5) continue;  // malformed strings: a fifth of the long ones
      c.cur("loadString " + s); BoostPropertyTree u; u.setInt("old", 1); bool thr = false; S err; try { u.loadString(s); } catch (const std::exception& e) { thr = true; err = e.what(); }
      N g = content(u); c.eval(ok);
      if (ok) { ++wf; c.check(!thr, "refused", "refused: " + err); if (!thr) { g.d = ""; c.check(g == m, "content", "gives " + dump(g) + " instead of " + dump(m)); } if (wf % 5000 == 1) c.sample(s); c.state(s); c.transition(); }
      else if (thr) { N b; put(b, {"old"}, "1"); c.check(g == b, "failed load changed the tree", dump(g)); }
    }
  }
}
VF_PART(P03_forms, 2) {
  // longer, well formed strings from a grammar: as string, vector and argument list, with values of every allowed kind
  std::vector<S> val = {"0.1", "-3", "hello", "true", "x.y", "a-b_c", "1e-5", "+5", "a:b", "(z)", "a&b<c>", "'q'", "@", "~", "a|b", "100%", "$x", "a*b?", "[1]"};
  std::vector<std::pair<S, P>> keys = {{"a", {"a"}}, {"a/b", {"a", "b"}}, {"c/d/e", {"c", "d", "e"}}, {"x.y/z-1", {"x.y", "z-1"}}};
  std::vector<std::pair<S, N>> ph;
  for (auto& k : keys) for (size_t v = 0; v < val.size(); ++v) {
    N one; put(one, k.second, val[v]); ph.push_back({k.first + "=" + val[v], one});
    N two; put(two, cat(k.second, {"u"}), val[v]); put(two, cat(k.second, {"v", "w"}), "4"); ph.push_back({k.first + "{u=" + val[v] + ",v/w=4}", two});
    if (v % 4 == 0) { N thr; put(thr, cat(k.second, {"u", "x"}), val[v]); put(thr, cat(k.second, {"y"}), "1"); ph.push_back({k.first + "{u{x=" + val[v] + "},y=1}", thr}); ph.push_back({k.first + "/u{x=" + val[v] + "}", N()}); put(ph.back().second, cat(k.second, {"u", "x"}), val[v]); ph.push_back({k.first + "{}", N()}); put(ph.back().second, k.second, ""); ph.push_back({k.first, N()}); put(ph.back().second, k.second, ""); }
  }
  uint64_t idx = 0;
  for (size_t i = 0; i < ph.size(); ++i) for (size_t j = 0; j <= ph.size(); ++j) {
    if (!c.mine(idx++)) continue; if (!c.thorough && i * 3 % 5 && j % 7 && j < ph.size()) continue;
    std::vector<S> args{ph[i].first}; N m = ph[i].second; if (j < ph.size()) { args.push_back(ph[j].first); for (auto& x : ph[j].second.c) m.c.push_back(x); }
    if (i % 3 == 0) { args.push_back("last=9"); N z; z.d = "9"; m.c.push_back({"last", z}); }
    S s; std::vector<const char*> av; for (auto& a : args) { if (!s.empty()) s += ","; s += a; av.push_back(a.c_str()); }
    c.cur("loadString " + s); c.eval(); c.state(s); c.transition(3);
    for (int way = 0; way < 3; ++way) { BoostPropertyTree t; t.setInt("gone", 1); try { if (way == 0) t.loadString(s); else if (way == 1) t.loadStrings(args); else t.loadStrings((int)av.size(), av.data()); } catch (const std::exception& e) { c.failpl("refused", e.what()); break; } N g = content(t); g.d = ""; c.check(g == m, "content", "gives " + dump(g) + " instead of " + dump(m)); }
    if (idx % 401 == 0) c.sample(s);
  }
  for (const char* s : {"a=\"x\"", "\"", "a\"b=1", "}", "a}", "a=1}", "a{b=1}}", "a{b=1", "a{", "a/{", "a{b{c=1}"}) { c.cur("loadString %s", s); c.eval(); BoostPropertyTree t; t.setInt("k", 7); bool thr = false; try { t.loadString(s); } catch (const std::exception&) { thr = true; } N b; put(b, {"k"}, "7"); c.check(thr, "accepted", S("accepted ") + s); c.check(!thr || content(t) == b, "failed load changed the tree", dump(content(t))); }
}
// ---- layered configuration files
namespace {
namespace fs = boost::filesystem;
struct Loader : sm::BoostPropertyTreeLoader {
  std::vector<S> ev; std::set<S>* virt = nullptr;
  void goingToMergeIn(const S& p) override { ev.push_back("+" + fs::weakly_canonical(p).string()); }
  void startingWith(const S& p) override { ev.push_back("=" + fs::weakly_canonical(p).string()); }
  void warn(const S&) override { ev.push_back("w"); }
  void info(const S&) override {}
  void verbose(const S&) override {}
  bool fileExists(const S& p) const override { return virt ? virt->count(fs::path(p).lexically_normal().string()) > 0 : BoostPropertyTreeLoader::fileExists(p); }
};
// reference: which file a name means
S resolve(const std::function<bool(const S&)>& ex, const std::vector<S>& sp, const std::vector<S>& inf, const S& path, const S& rel) {
  if (sp.empty() || path[0] == '/') return path;
  if (path.compare(0, 2, "./") == 0 || path.compare(0, 3, "../") == 0) {
    if (rel.empty()) { if (ex(path)) return path; }
    else { S d = rel.find('/') == S::npos ? "" : rel.substr(0, rel.rfind('/') + 1); if (ex(d + path)) return d + path; }
  }
  for (auto& s : sp) { if (inf.empty()) { if (ex(s + "/" + path)) return s + "/" + path; } for (auto& i : inf) { S q = s + "/" + (i.empty() ? "" : i + "/") + path; if (ex(q)) return q; } }
  return sp[0] + "/" + (inf.empty() || inf[0].empty() ? "" : inf[0] + "/") + path;
}
struct File { S parents; int where; N body; };  // where: 0 none, 1 root key, 2 key of the first child
struct Ref {
  std::map<S, File>& files; std::vector<S> sp, inf; std::set<S> done; N tree; bool set = false; int error = 0; std::vector<S> ev;
  void all(const std::vector<S>& names, const S& rel) { for (auto n : names) if (!n.empty() && !error) one(n, rel); }
  void one(S n, const S& rel) {
    bool upd = n.back() == '!'; if (upd) n.pop_back();
    S full = fs::path(resolve([&](const S& p) { return files.count(fs::absolute(p).lexically_normal().string()) > 0; }, sp, inf, n, rel)).string(); S can = fs::absolute(full).lexically_normal().string();
    if (!done.insert(can + (upd ? "!" : "")).second) return;
    auto it = files.find(can); if (it == files.end()) { error = 2; return; }
    const File& f = it->second; N m = f.body; if (f.where == 1) put(m, {"parents"}, f.parents); if (f.where == 2) put(m, {m.c.empty() ? "first" : m.c[0].first, "parents"}, f.parents); if (f.where != 1) put(m, {"parents"}, "");
    if (!f.parents.empty() && f.where) { std::vector<S> l; S w; for (char ch : f.parents + ",") if (ch == ',') { l.push_back(w); w.clear(); } else w += ch; all(l, full); if (error) return; }
    if (set) { ev.push_back("+" + can); if (!merge(tree, m, !upd, false, {}, m)) error = 1; }
    else { if (upd) ev.push_back("w"); ev.push_back("=" + can); tree = m; set = true; }
  }
};
N noParents(N n) { for (size_t i = 0; i < n.c.size(); ++i) if (n.c[i].first == "parents") { n.c.erase(n.c.begin() + i); break; } n.d = ""; return n; }
void writeInfo(const S& path, const File& f) { N m = f.body; if (f.where == 1) put(m, {"parents"}, f.parents); if (f.where == 2) put(m, {m.c.empty() ? "first" : m.c[0].first, "parents"}, f.parents); BoostPropertyTree(conv(m)).save(path); }
void compare(vf::Ctx& c, std::map<S, File>& files, Loader& l, const std::vector<S>& list, bool joined) {
  Ref r{files, l.getSearchPaths(), l.getFileNameInfixes(), {}, N(), false, 0, {}}; r.all(list, "");
  N g; int o = 0; S what; l.ev.clear();
  try { S j; for (size_t i = 0; i < list.size(); ++i) j += (i ? "," : "") + list[i]; BoostPropertyTree t = joined ? l.readFilesAndMergeIntoPropertyTree(j) : l.readFilesAndMergeIntoPropertyTree(list); g = content(t); }
  catch (const PropertyTree::KeyNotFoundException& e) { o = 1; what = e.what(); } catch (const std::exception& e) { o = 2; what = e.what(); }
  c.check(o == r.error, "outcome", (o == 0 ? S("loaded") : o == 1 ? "reports a missing key" : "failed: " + what) + " but expected " + (r.error == 0 ? "success" : r.error == 1 ? "a missing key" : "failure"));
  if (!o && !r.error) { c.check(noParents(g) == noParents(r.tree), "tree", "gives " + dump(g) + " instead of " + dump(r.tree)); const N *a = find(g, {"parents"}), *b = find(r.tree, {"parents"}); c.check((a ? a->d : "") == (b ? b->d : ""), "parents key", "the key 'parents' is " + (a ? a->d : S("absent"))); }
  if (o == r.error) c.check(l.ev == r.ev, "order", "files were merged in another order: " + [&] { S s; for (auto& e : l.ev) s += e + " "; s += "instead of "; for (auto& e : r.ev) s += e + " "; return s; }());
}
}
VF_PART(P04_graphs, 8) {
  S dir = fs::canonical(c.scratch()).string(); S s1 = dir + "/s1", s2 = dir + "/s2"; mkdir(s1.c_str(), 0755); mkdir(s2.c_str(), 0755); mkdir((s1 + "/sub").c_str(), 0755); mkdir((s2 + "/sub").c_str(), 0755);
  N X, Y, Z; put(X, {"x"}, "1"); put(X, {"g", "u"}, "1"); put(Y, {"x"}, "2"); put(Y, {"g", "v"}, "2"); put(Z, {"g", "u"}, "3");
  std::vector<N> bodies = {X, Y, Z};
  // a: s1/a.info, b: s1/sub/b.info, d: s2/sub/d.info, p: both s1/sub/p.info and s2/sub/p.info (different)
  std::vector<S> PA = {"", "sub/b.info", "./sub/b.info", "sub/b.info!", "sub/d.info,sub/b.info", "./a.info", "a.info", "../s2/sub/d.info"}, PB = {"", "a.info", "./p.info", "../a.info", "sub/d.info", "./p.info!", "sub/p.info"}, PD = {"", "./p.info", "../../s1/a.info", "../sub/d.info", "sub/b.info"};
  std::vector<std::vector<S>> lists = {{"a.info"}, {"a.info", "sub/d.info"}, {"sub/b.info", "a.info!"}, {"sub/d.info", "sub/b.info", ""}, {"sub/b.info", "sub/d.info!"}, {"", "a.info", "sub/b.info!", "a.info", "./s1/a.info"}};
  if (chdir(dir.c_str())) return; uint64_t i = 0;
  for (auto& pa : PA) for (auto& pb : PB) for (auto& pd : PD) for (int b = 0; b < 27; ++b) {
    if (!c.mine(i++)) continue; if (!c.thorough && (i / 8) % 3) continue;
    std::map<S, File> files; files[s1 + "/a.info"] = {pa, pa.empty() ? 0 : 1, bodies[b % 3]}; files[s1 + "/sub/b.info"] = {pb, pb.empty() ? 0 : 1 + (b == 5), bodies[b / 3 % 3]}; files[s2 + "/sub/d.info"] = {pd, pd.empty() ? 0 : 1 + (b % 9 == 4), bodies[b / 9]};
    N p1, p2; put(p1, {"g", "u"}, "p1"); put(p2, {"x"}, "p2"); put(p2, {"h"}, "p2"); files[s1 + "/sub/p.info"] = {"", 0, p1}; files[s2 + "/sub/p.info"] = {"", 0, p2};
    for (auto& f : files) writeInfo(f.first, f.second);
    for (size_t l = 0; l < lists.size(); ++l) {
      c.cur("a<-'%s' b<-'%s' d<-'%s' bodies %d list %zu", pa.c_str(), pb.c_str(), pd.c_str(), b, l); Loader ld; ld.getSearchPaths() = {s1, s2}; c.eval(!pa.empty() || !pb.empty()); c.state(vf::str(i) + "," + vf::str(l)); c.transition(lists[l].size()); c.trace();
      compare(c, files, ld, lists[l], l % 2); if (i % 499 == 0) c.sample("a<-'" + pa + "' b<-'" + pb + "' d<-'" + pd + "'");
    }
  }
}
// which file a name means: search paths, infixes, relative names, real and virtual files
VF_PART(P04_resolve, 4) {
  S dir = fs::canonical(c.scratch()).string(); if (chdir(dir.c_str())) return;
  std::vector<S> where = {"s1/f.info", "s2/f.info", "s1/i1/f.info", "s2/i1/f.info", "s1/i2/f.info", "s2/i2/f.info", "s1/sub/f.info", "f.info", "sub/f.info"};
  std::vector<std::vector<S>> SP = {{}, {"s1"}, {"s1", "s2"}, {"s2", "s1"}, {dir + "/s2"}}, INF = {{}, {""}, {"i1"}, {"i1", ""}, {"", "i1", "i2"}, {"i2", "i1"}};
  std::vector<S> paths = {"f.info", "./f.info", "../f.info", "sub/f.info", dir + "/s1/f.info", "./sub/f.info", "g.info"}, rels = {"", "s1/main.info", "s1/sub/main.info", "main.info", dir + "/s2/x/main.info", "./main.info"};
  const std::vector<S> extra = {dir + "/s1/sub", dir + "/s2/x", dir + "/s1/i1", dir + "/s1/i2", dir + "/s2/i1", dir + "/s2/i2", dir + "/sub"}; for (auto& d : extra) fs::create_directories(d);
  for (int mask = 0; mask < 1 << where.size(); ++mask) {
    if (!c.mine(mask) || (!c.thorough && __builtin_popcount(mask) > 4)) continue;
    std::set<S> virt; for (size_t k = 0; k < where.size(); ++k) { S f = dir + "/" + where[k]; if (mask >> k & 1) { spit(f, "a 1\n"); virt.insert(f); virt.insert(where[k]); } else unlink(f.c_str()); }
    for (auto& sp : SP) for (auto& inf : INF) for (auto& p : paths) for (auto& r : rels) for (int v = 0; v < 2; ++v) {
      if (v) { if (mask % 3) continue; for (auto& w : where) unlink((dir + "/" + w).c_str()); }
      else if (mask % 3 == 0) for (auto& w : virt) if (w[0] == '/' && access(w.c_str(), F_OK)) spit(w, "a 1\n");
      c.cur("mask %d, %zu search paths, %zu infixes, %s relative to '%s'%s", mask, sp.size(), inf.size(), p.c_str(), r.c_str(), v ? ", virtual files" : "");
      auto ex = [&](const S& q) { return virt.count(fs::path(q).lexically_normal().string()) > 0; };
      Loader l; l.virt = v ? &virt : nullptr; l.getSearchPaths() = sp; l.getFileNameInfixes() = inf; S e = resolve(ex, sp, inf, p, r), g = l.resolveFullFilePath(p, r), g2 = l.resolveFullFilePath(p, r);
      auto nm = [](const S& q) { return fs::path(q).lexically_normal().string(); };
      c.eval(mask != 0); c.check(nm(g) == nm(e) && g2 == g, "resolve", "gives " + g + " instead of " + e);
    }
    c.state("m" + vf::str(mask)); c.transition();
  }
  c.sample("mask of existing files x search paths x infixes x names x referring files");
}
// one loader through every sequence of changes to its settings and to the files
VF_PART(P04_histories, 8) {
  S dir = fs::canonical(c.scratch()).string(); if (chdir(dir.c_str())) return; for (S d : {"x/i1", "y/i1"}) fs::create_directories(dir + "/" + d);
  const char* ops[] = {"paths x", "paths y,x", "paths none", "infix i1,''", "infix ''", "x/f", "y/f", "x/i1/f", "load f", "load g", "resolve f"}; const int NO = 11, depth = c.thorough ? 5 : 4; uint64_t total = 1; for (int d = 0; d < depth; ++d) total *= NO; uint64_t n = 0;
  for (uint64_t code = 0; code < total; ++code) {
    { uint64_t x = code; for (int d = 1; d < depth; ++d) x /= NO; if (x < 8) continue; } if (!c.mine(n++ / 16)) continue; // the last operation is a load
    std::map<S, File> files; auto put1 = [&](const S& f, const S& v, const S& parents) { N b; put(b, {"v"}, v); files[dir + "/" + f] = {parents, parents.empty() ? 0 : 1, b}; writeInfo(dir + "/" + f, files[dir + "/" + f]); };
    for (S f : {"x/f.info", "y/f.info", "x/i1/f.info"}) unlink((dir + "/" + f).c_str()); put1("x/f.info", "1", ""); put1("x/g.info", "g", "f.info"); put1("y/g.info", "h", "./f.info,f.info"); int version = 1;
    Loader l; l.getSearchPaths() = {dir + "/x"}; S hist; uint64_t x = code;
    for (int d = 0; d < depth; ++d, x /= NO) {
      int o = x % NO; hist += S(d ? "; " : "") + ops[o]; c.cur(hist); c.transition();
      auto toggle = [&](const S& f) { if (files.count(dir + "/" + f)) { files.erase(dir + "/" + f); unlink((dir + "/" + f).c_str()); } else put1(f, vf::str(++version), ""); };
      if (o == 0) l.getSearchPaths() = {dir + "/x"}; else if (o == 1) l.getSearchPaths() = {dir + "/y", dir + "/x"}; else if (o == 2) l.getSearchPaths().clear(); else if (o == 3) l.getFileNameInfixes() = {"i1", ""}; else if (o == 4) l.getFileNameInfixes() = {""};
      else if (o < 8) toggle(o == 5 ? "x/f.info" : o == 6 ? "y/f.info" : "x/i1/f.info"); else if (o < 10) compare(c, files, l, {o == 8 ? "f.info" : "g.info"}, true);
      else { S e = resolve([&](const S& q) { return files.count(fs::absolute(q).lexically_normal().string()) > 0; }, l.getSearchPaths(), l.getFileNameInfixes(), "f.info", ""), g = l.resolveFullFilePath("f.info", ""); c.check(fs::path(g).lexically_normal() == fs::path(e).lexically_normal(), "resolve", "gives " + g + " instead of " + e); }
    }
    c.eval(); c.trace(); c.state(hist); if (n % 997 == 0) c.sample(hist);
  }
}
// infixes and file formats in full loads; faulty files
VF_PART(P04_files) {
  S dir = fs::canonical(c.scratch()).string(); if (chdir(dir.c_str())) return; mkdir("cfg", 0755); mkdir("cfg/robot1", 0755); mkdir("base", 0755);
  N A, B; put(A, {"s", "k"}, "1"); put(A, {"s", "l"}, "2"); put(B, {"s", "k"}, "9");
  for (auto& e1 : EXT) for (auto& e2 : EXT) for (int inf = 0; inf < 2; ++inf) for (int upd = 0; upd < 2; ++upd) for (int par = 0; par < 2; ++par) {
    c.cur("base.%s + over.%s infix %d update %d parent %d", e1.c_str(), e2.c_str(), inf, upd, par); c.eval(); c.state(c.nshards ? e1 + e2 + vf::str(inf * 4 + upd * 2 + par) : "");
    S fb = dir + "/base/base." + e1, fo = dir + (inf ? "/cfg/robot1/over." : "/cfg/over.") + e2; for (auto& e : EXT) { unlink((dir + "/cfg/over." + e).c_str()); unlink((dir + "/cfg/robot1/over." + e).c_str()); }
    std::map<S, File> files; files[fb] = {"", 0, A}; files[fo] = {"base." + e1, par ? 1 : 0, B}; for (auto& f : files) writeInfo(f.first, f.second);
    Loader l; l.getSearchPaths() = {dir + "/cfg", dir + "/base"}; l.getFileNameInfixes() = {"robot1", ""};
    std::vector<S> list; if (!par) list.push_back("base." + e1); list.push_back("over." + e2 + (upd ? "!" : "")); compare(c, files, l, list, true); c.trace();
  }
  for (const char* n : {"absent.info", "bad.info", "noext", "a.info,absent.info", "absent.info!"}) { c.cur("load %s", n); c.eval(); spit("cfg/bad.info", "a { b\n"); spit("cfg/a.info", "a 1\n"); Loader l; l.getSearchPaths() = {dir + "/cfg"}; bool thr = false; try { l.readFilesAndMergeIntoPropertyTree(S(n)); } catch (const std::exception&) { thr = true; } c.check(thr, "faulty file", "no error"); }
  { c.cur("no files"); c.eval(false); Loader l; BoostPropertyTree t = l.readFilesAndMergeIntoPropertyTree(S("")); c.check(t.begin() == t.end(), "nothing", "not empty"); }
}
VF_PART(P04_findFile) {
  S dir = fs::canonical(c.scratch()).string(); mkdir((dir + "/d").c_str(), 0755); mkdir((dir + "/d/e").c_str(), 0755); spit(dir + "/d/f.txt", "x"); spit(dir + "/d/e/g.txt", "x"); spit(dir + "/h.txt", "x");
  struct E { const char* var; S val; }; std::vector<E> env = {{"VF_NONE", ""}, {"VF_D", dir + "/d"}, {"VF_DS", dir + "/d/"}, {"VF_X", dir + "/nosuch"}, {"VF_R", dir}};
  for (auto& e : env) { if (e.val.empty()) unsetenv(e.var); else setenv(e.var, e.val.c_str(), 1); }
  for (auto& e : env) for (S f : {"f.txt", "e/g.txt", "h.txt", "../h.txt", ".", "e", "none", "f.txt/x", "d/f.txt"}) {
    c.cur("findFile(%s, %s)", f.c_str(), e.var); S want = e.val + (e.val.empty() || e.val.back() == '/' ? "" : "/") + f; bool ok = !e.val.empty() && access(want.c_str(), F_OK) == 0, thr = false; c.eval(ok); S got;
    try { got = sm::findFile(f, e.var).string(); } catch (const std::runtime_error&) { thr = true; }
    c.check(thr == !ok && (!ok || got == want), "findFile", thr ? "reports it as not found" : "gives " + got);
  }
}
// deep and wide trees, long keys and values
namespace {
N tall(int n, bool inner) { N r; P p; for (int i = 0; i < n; ++i) { p.push_back(i % 3 ? "k" + vf::str(i) : "k"); if (inner || i == n - 1) put(r, p, "v" + vf::str(i)); } return r; }
N wide(int n) { N r; for (int i = 0; i < n; ++i) { N x; x.d = vf::str(i * 7); r.c.push_back({"c" + vf::str(i * 37 % 1009), x}); } return r; }
N longs(int n) { N r; put(r, {S(n, 'k')}, S(n, 'v')); put(r, {"s", S(n, 'x') + "1"}, S(n / 2, 'a') + " " + S(n / 2, 'b')); put(r, {"s", S(n, 'x') + "2"}, "2"); return r; }
S join(const P& p) { S r; for (auto& x : p) r += (r.empty() ? "" : "/") + x; return r; }
const int SIZES[] = {2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257};
}
VF_PART(P01_large, 8) {
  int i = 0; for (int n : SIZES) for (int kind = 0; kind < 4; ++kind) {
    if (!c.mine(i++)) continue;
    N m = kind == 0 ? tall(std::min(n, 100), true) : kind == 1 ? tall(std::min(n, 100), false) : kind == 2 ? wide(n) : longs(n * 8); N e; BoostPropertyTree t; std::map<P, S> v; values(m, {}, v);
    c.cur("tree of kind %d, size %d", kind, n); c.state(vf::str(n) + "/" + vf::str(kind)); c.trace();
    // built through the root and through handles of the level above
    std::function<void(const N&, const P&, PropertyTree)> build = [&](const N& x, const P& p, PropertyTree h) { for (auto& y : x.c) { P q = cat(p, {y.first}); if (i / 4 % 2) t.setString(join(q), y.second.d); else h.setString(y.first, y.second.d); c.transition(); build(y.second, q, PropertyTree(h, y.first)); } };
    build(m, {}, t); N got = content(t); got.d = ""; c.check(got == m, "build", "gives " + dump(got).substr(0, 300));
    for (auto& x : v) { if (x.first.empty()) continue; S k = join(x.first); observe(c, t, m, {}, k, "root"); observe(c, PropertyTree(t, x.first[0]), m, {x.first[0]}, join(P(x.first.begin() + 1, x.first.end())), "first"); observe(c, t, m, {}, k + "x", "root"); P up(x.first.begin(), x.first.end() - 1); observe(c, PropertyTree(t, join(up)), m, up, x.first.back(), "parent"); }
    PropertyTree ph = t; children(c, t, &ph, m, {}, "root");
    BoostPropertyTree u; N z; u.setString("k", "old"); put(z, {"k"}, "old"); merge(z, m, true, false, {}, m); u.update(t, true); got = content(u); got.d = ""; z.d = ""; c.check(got == z, "update", "a large tree merged gives " + dump(got).substr(0, 300));
    BoostPropertyTree w(conv(m)); int o = 0; try { w.update(t, false, true); } catch (const std::exception&) { o = 1; } got = content(w); got.d = ""; c.check(!o && got == m, "update", "a large tree merged with itself changes");
  }
}
VF_PART(P02_large, 8) {
  S dir = c.scratch(); int i = 0; for (int n : SIZES) for (int kind = 0; kind < 4; ++kind) for (auto& e : EXT) {
    if (!c.mine(i++)) continue;
    N m = kind == 0 ? tall(std::min(n, 90), true) : kind == 1 ? tall(std::min(n, 90), false) : kind == 2 ? wide(n) : longs(n * 8); c.cur("tree of kind %d, size %d as %s", kind, n, e.c_str()); c.state(vf::str(n) + "/" + vf::str(kind) + e); c.transition(2); c.eval();
    bool must = e == "xml" || e == "info" || (e == "json" && !mixed(m)) || (e == "ini" && depth(m) <= 2 && !mixed(m) && !dups(m)); roundtrip(c, dir, m, e, i / 4 % 4, must, false);
  }
}
VF_PART(P03_large, 4) {
  int i = 0; for (int n : SIZES) for (int kind = 0; kind < 5; ++kind) {
    if (!c.mine(i++)) continue;
    S s; N m;
    if (kind == 0) { for (int k = 0; k < n; ++k) s += (k ? "{n" : "n") + vf::str(k); s += "=7"; s += S(n - 1, '}'); P p; for (int k = 0; k < n; ++k) p.push_back("n" + vf::str(k)); put(m, p, "7"); }
    else if (kind == 1) { P p; for (int k = 0; k < n; ++k) { s += (k ? "/n" : "n") + vf::str(k); p.push_back("n" + vf::str(k)); } s += "=x"; put(m, p, "x"); }
    else if (kind == 2) { for (int k = 0; k < n; ++k) { s += (k ? "," : "") + ("e" + vf::str(k)) + "=" + vf::str(k * 3); N x; x.d = vf::str(k * 3); m.c.push_back({"e" + vf::str(k), x}); } }
    else if (kind == 3) { s = S(n * 8, 'k') + "=" + S(n * 8, 'v') + ",b=1"; N x; x.d = S(n * 8, 'v'); m.c.push_back({S(n * 8, 'k'), x}); x.d = "1"; m.c.push_back({"b", x}); }
    else { s = "r{"; N r; for (int k = 0; k < n; ++k) { s += (k ? "," : "") + ("g" + vf::str(k)) + "{a=" + vf::str(k) + ",b/c=t}"; N x; put(x, {"a"}, vf::str(k)); put(x, {"b", "c"}, "t"); r.c.push_back({"g" + vf::str(k), x}); } s += "}"; m.c.push_back({"r", r}); }
    c.cur("string of kind %d, size %d", kind, n); c.state(vf::str(n) + "/" + vf::str(kind)); c.transition(); c.eval();
    BoostPropertyTree t; t.setInt("gone", 1); try { t.loadString(s); } catch (const std::exception& e) { c.failpl("refused", e.what()); continue; } N g = content(t); g.d = ""; c.check(g == m, "content", "gives " + dump(g).substr(0, 300));
    BoostPropertyTree b; b.setInt("old", 1); bool thr = false; try { b.loadString(kind == 1 || kind == 2 || kind == 3 ? s + "}" : s.substr(0, s.size() - 1)); } catch (const std::exception&) { thr = true; } N old; put(old, {"old"}, "1"); c.check(thr && content(b) == old, "unmatched", "a large string with an unmatched brace is accepted or destroys the old content");
  }
}
// long parent chains, many parents, long lists of files, many search paths and infixes
VF_PART(P04_large, 4) {
  S dir = fs::canonical(c.scratch()).string(); if (chdir(dir.c_str())) return; int i = 0;
  for (int n : {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65}) for (int kind = 0; kind < 10; ++kind) {
    if (!c.mine(i++)) continue;
    S base = dir + "/n" + vf::str(n) + "_" + vf::str(kind); fs::create_directories(base + "/s"); auto name = [](int k) { return "f" + vf::str(k) + ".info"; };
    std::map<S, File> files; Loader l; l.getSearchPaths() = {base}; std::vector<S> list;
    c.cur("%d files, arrangement %d", n, kind); c.state(vf::str(n) + "/" + vf::str(kind)); c.eval(n > 1); c.trace();
    auto body = [&](int k) { N b; put(b, {"x"}, vf::str(k)); put(b, {"g", "u" + vf::str(k % 7)}, vf::str(k)); put(b, {"own", "k" + vf::str(k)}, "1"); return b; };
    auto dirOf = [&](int k) { return kind == 1 && k % 2 ? base + "/s/" : base + "/"; };
    for (int k = 0; k < n; ++k) {
      File f{"", 0, body(k)};
      if (kind == 0 || kind == 6) f.parents = k + 1 < n ? name(k + 1) : kind == 6 ? name(0) : "";                                  // chain, cycle
      else if (kind == 1) f.parents = k + 1 < n ? (k % 2 ? "../" : "./s/") + name(k + 1) : S();                                     // chain of relative names through two directories
      else if (kind == 2 && k == 0) for (int j = 1; j < n; ++j) f.parents += (j > 1 ? "," : "") + name(j);                       // many parents
      else if (kind == 3) for (int j : {2 * k + 1, 2 * k + 2}) if (j < n) f.parents += (f.parents.empty() ? "" : ",") + name(j); // a binary tree
      else if (kind == 4 && k) f.parents = name(0);                                                                               // a common parent, listed last
      else if (kind == 7 && k) f.parents = name(k - 1) + "," + name((k * 5) % n);
      f.where = f.parents.empty() ? 0 : 1; files[dirOf(k) + name(k)] = f;
    }
    for (auto& f : files) writeInfo(f.first, f.second);
    if (kind == 4 || kind == 5 || kind == 7) for (int k = n - 1; k >= 0; --k) list.push_back(name((k * 7 + 3) % n == k ? k : k) + (kind == 5 && k % 5 == 4 && k != n - 1 ? "!" : "")); else if (kind == 8) { for (int k = 0; k < n; ++k) list.push_back(name(k)); for (int k = 0; k < n; ++k) list.push_back(name((k * 5 + 2) % n)); }                        // each once more, in another order
    else if (kind == 9) for (int k = 0; k < n; ++k) { list.push_back(name(k) + (k % 3 == 1 ? "!" : "")); list.push_back(name(k / 2)); list.push_back(name(0) + (k % 2 ? "!" : "")); }
    else list.push_back(name(0));
    c.transition(files.size()); compare(c, files, l, list, n % 2);
    // the file lies only in the k-th of many search paths / infixes
    if (kind < 2) for (int at : {0, n / 2, n - 1}) for (int also = 0; also < 2; ++also) {
      c.cur("%d %s, file in number %d%s", n, kind ? "infixes" : "search paths", at, also ? " and the last" : ""); c.eval(n > 1);
      std::vector<S> v; for (int k = 0; k < n; ++k) v.push_back(kind ? "i" + vf::str(k) : base + "/p" + vf::str(k)); S root = kind ? base + "/" : S();
      for (auto& d : v) { fs::create_directories(root + d); unlink((root + d + "/q.info").c_str()); }
      std::map<S, File> one; one[root + v[at] + "/q.info"] = {"", 0, body(at)}; if (also) one[root + v[n - 1] + "/q.info"] = {"", 0, body(n - 1)}; for (auto& f : one) writeInfo(f.first, f.second);
      Loader m; if (kind) { m.getSearchPaths() = {base}; m.getFileNameInfixes() = v; } else m.getSearchPaths() = v; compare(c, one, m, {"q.info"}, true);
    }
  }
}
