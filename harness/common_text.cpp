// C02 string routines.
#include "vf.hpp"
#include "fresh.hpp"
#include <algorithm>
#include <limits>
#include <sm/string_routines.hpp>
using namespace sm;
// ------------------------------------------------------------------- C02
namespace {
template <class F> void strings(const std::string& alpha, int maxlen, F f) {
  std::vector<std::string> cur(1, ""); f(std::string());
  for (int l = 1; l <= maxlen; ++l) { std::vector<std::string> nx; for (auto& s : cur) for (char a : alpha) { nx.push_back(s + a); f(nx.back()); } cur.swap(nx); }
}
std::string refenv(const std::string& s) {
  std::string r; size_t i = 0;
  while (i < s.size()) {
    if (s[i] == '$' && i + 1 < s.size() && s[i + 1] == '(') {
      size_t e = i + 2; while (e < s.size() && s[e] != ')') ++e;
      if (e == s.size()) return r + s.substr(i);
      std::string n = s.substr(i + 2, e - i - 2); const char* v = getenv(n.c_str());
      r += v ? std::string(v) : s.substr(i, e + 1 - i); i = e + 1;
    } else r += s[i++];
  }
  return r;
}
std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::vector<double> dgrid() { return {0.0, -0.0, 1, -1, 0.5, 1.5, 2.5, -2.5, 0.05, 0.125, 9.995, 99.9999, -0.0004, 1e-9, 123456.789, -1e15, 1e21, 3.0e-300, 1.7e308, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}; }
}
VF_PART(C02_replace, 4) {
  uint64_t n = 0; int L = c.thorough ? 8 : 6;
  strings("ab/", L, [&](const std::string& s) {
    if (!c.mine(n++)) return;
    for (char t : {'a', 'b', '/', 'x'}) for (char r : {'a', 'b', 'y'}) for (unsigned k = 0; k <= 4; ++k) {
      c.cur("'%s' replace %c by %c skip %u", s.c_str(), t, r, k);
      std::string e = s, b = s; unsigned q = 0; for (char& ch : e) if (ch == t && q++ >= k) ch = r;
      q = 0; for (size_t i = b.size(); i-- > 0;) if (b[i] == t && q++ >= k) b[i] = r;
      c.check(sm::replace(s, t, r, k) == e, "replace", "replace gives " + sm::replace(s, t, r, k));
      c.check(replace_reverse(s, t, r, k) == b, "replace_reverse", "replace_reverse gives " + replace_reverse(s, t, r, k) + " instead of " + b);
      if (k == 0) c.check(sm::replace(s, t, r) == e && replace_reverse(s, t, r) == b, "replace", "default skip");
      c.eval(e != s || b != s);
    }
    c.check(ensureTrailingBackslash(s) == (!s.empty() && s.back() == '/' ? s : s + "/"), "trailing", "ensureTrailingBackslash gives " + ensureTrailingBackslash(s));
    for (unsigned w = 0; w <= 9; ++w) { std::string e = s.size() < w ? std::string(w - s.size(), '*') + s : s; c.check(leading_pad(s, w, '*') == e, "leading_pad", leading_pad(s, w, '*')); std::string p = padded(s, w, '*'); c.check(p == e, "padded", p); c.eval(); }
  });
  c.sample("'aa/a' replace a by b skip 1 from the back: 'ba/a' becomes 'bb/a' with the last a kept");
}
VF_PART(C02_environment, 8) {
  clearenv(); setenv("V", "value", 1); setenv("E", "", 1); setenv("", "?", 1); setenv("VE", "$(V)", 1); setenv("V$", "dollar", 1); setenv("$(V", "nested", 1); setenv("(", "p", 1);
  uint64_t n = 0; int L = c.thorough ? 8 : 7;
  strings("$()VE", L, [&](const std::string& s) {
    if (!c.mine(n++)) return;
    c.cur("'%s'", s.c_str()); std::string e = refenv(s), r = substituteEnvVars(s);
    c.check(r == e, "substitute", "gives '" + r + "' instead of '" + e + "'"); c.eval(e != s);
  });
  strings("$(V)", 5, [&](const std::string& t) { if (!c.mine(n++)) return; for (const char* pre : {"$(V)", "a$(E)b", "$(NO)", "x"}) for (const char* post : {"$(V)", "$(VE)", " $(E)", ")"}) { std::string s = std::string(pre) + t + post; c.cur("'%s'", s.c_str()); c.check(substituteEnvVars(s) == refenv(s), "substitute", "gives '" + substituteEnvVars(s) + "'"); c.eval(true); } });
  c.sample("'$(NO)$(V)' gives '$(NO)value'");
}
VF_PART(C02_numbers) {
  for (double x : dgrid()) for (unsigned w = 0; w <= 24; w += 3) for (unsigned p = 0; p <= 12; ++p) {
    c.cur("%.17g width %u precision %u", x, w, p);
    c.check(padded(x, w, p) == fmt("%*.*f", w, p, x), "padded", padded(x, w, p));
    c.check(scientific(x, w, p) == fmt("%*.*e", std::max(w, p + 7), p, x), "scientific", scientific(x, w, p));
    c.check(fixedFloat(x, p) == fmt("%.*f", p, x), "fixedFloat", fixedFloat(x, p));
    std::vector<double> v = {x, 2, -x}; 
    for (int k = 0; k <= 3; ++k) {
      std::string e = "<", g = "["; for (int i = 0; i < k; ++i) { e += (i ? ";" : "") + fmt("%*.*f", w, p, v[i]); }
      c.check(paddedToString(w, p, v.begin(), v.begin() + k, ";", "<", ">") == e + ">", "paddedToString", paddedToString(w, p, v.begin(), v.begin() + k, ";", "<", ">"));
    }
    c.eval();
  }
  for (long long x : {0LL, 1LL, -1LL, 9LL, 10LL, -10LL, 12345LL, 2147483647LL, -2147483648LL, 9223372036854775807LL}) {
    c.cur("%lld", x); c.check(ts(x) == fmt("%lld", x) && s_tuple(x) == ts(x), "ts", ts(x));
    for (unsigned w = 0; w <= 22; ++w) for (char f : {'0', ' ', '#'}) { std::string t = ts(x); std::string e = t.size() < w ? std::string(w - t.size(), f) + t : t; c.check(padded(x, w, f) == e && (f != '0' || padded(x, w) == e), "padded", padded(x, w, f)); c.eval(); }
  }
  for (int a = -1; a <= 1; ++a) for (const char* b : {"", "x", "a,b"}) for (double d : {0.5, -2.0}) {
    c.cur("tuples %d %s %g", a, b, d); std::string A = ts(a), B = b, D = ts(d);
    c.check(s_tuple(a, B) == "[" + A + "," + B + "]" && s_tuple(a, B, d) == "[" + A + "," + B + "," + D + "]" && s_tuple(d, a, B, a) == "[" + D + "," + A + "," + B + "," + A + "]" && s_tuple(a, B, d, 'q', 7u) == "[" + A + "," + B + "," + D + ",q,7]" &&
            s_tuple(a, B, d, 'q', 7u, B) == "[" + A + "," + B + "," + D + ",q,7," + B + "]" && s_tuple(1, 2, 3, 4, 5, d, a) == "[1,2,3,4,5," + D + "," + A + "]", "s_tuple", "wrong tuple");
    c.eval();
  }
  for (int n = 0; n <= 4; ++n) {
    int v[4] = {3, -1, 4, 15}; std::string e; for (int i = 0; i < n; ++i) e += (i ? "," : "") + ts(v[i]);
    c.cur("sequence of %d", n); c.check(arrToString(v, (unsigned)n) == "[" + e + "]" && arrToString(v + 0, v + n) == "[" + e + "]", "arrToString", arrToString(v, (unsigned)n));
    std::set<int> s(v, v + n); std::ostringstream o, d; toStream(o, s.begin(), s.end(), "--", "{", "}"); toStream(d, v, v + n); std::string q = "{", b; for (int x : s) q += (q.size() > 1 ? "--" : "") + ts(x);
    for (int i = 0; i < n; ++i) b += (i ? " " : "") + ts(v[i]);
    c.check(o.str() == q + "}", "toStream", o.str()); c.check(d.str() == b, "toStream", d.str()); c.eval(n > 0);
  }
  c.sample("padded(-2.5, 9, 3) = '   -2.500'");
}
// long strings, many variables with long names and values, every byte value, wide numbers
VF_PART(C02_large, 4) {
  const int D[] = {9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 70000}; int i = 0;
  clearenv(); std::string big(5000, 'w'), nm(300, 'N'); setenv("V", "value", 1); setenv("E", "", 1); setenv("BIG", big.c_str(), 1); setenv(nm.c_str(), "long name", 1);
  for (int n : D) for (int k = 0; k < 4; ++k) {
    if (!c.mine(i++)) continue;
    std::string s(n, 'a'); if (k == 1) for (int j = 0; j < n; j += 3) s[j] = '/'; if (k == 2) for (int j = 0; j < n; ++j) s[j] = (char)(j * 7 + n); if (k == 3) s[n - 1] = '/';
    c.cur("string of %d, pattern %d", n, k);
    for (int t : {(int)'a', (int)'/', 0, 255}) for (int r : {(int)'b', (int)'a', 0}) for (unsigned sk : {0u, 1u, (unsigned)n / 3, (unsigned)n - 1, (unsigned)n, 4294967295u}) {
      std::string e = s, b = s; unsigned q = 0; for (char& ch : e) if (ch == (char)t && q++ >= sk) ch = (char)r;
      q = 0; for (size_t x = b.size(); x-- > 0;) if (b[x] == (char)t && q++ >= sk) b[x] = (char)r;
      c.check(sm::replace(s, (char)t, (char)r, sk) == e, "replace", "in a long string"); c.check(replace_reverse(s, (char)t, (char)r, sk) == b, "replace_reverse", "in a long string"); c.eval(e != s || b != s);
    }
    c.check(ensureTrailingBackslash(s) == (s.back() == '/' ? s : s + "/"), "trailing", "of a long string");
    for (unsigned w : {0u, (unsigned)n - 1, (unsigned)n, (unsigned)n + 1, 2u * n, 1000u}) { std::string e = s.size() < w ? std::string(w - s.size(), '*') + s : s; c.check(leading_pad(s, w, '*') == e && padded(s, w, '*') == e, "leading_pad", "of a long string"); }
    c.check(ts(s) == s && s_tuple(s, 1) == "[" + s + ",1]", "ts", "of a long string");
    // n variables, known, unknown, empty and long
    std::string in, want; const int m = std::min(n, 1000); for (int j = 0; j < m; ++j) { in += vf::str(j); want += vf::str(j); switch ((j + k) % 6) { case 0: in += "$(V)"; want += "value"; break; case 1: in += "$(NONE" + vf::str(j) + ")"; want += "$(NONE" + vf::str(j) + ")"; break; case 2: in += "$(E)"; break; case 3: in += "$(" + nm + ")"; want += "long name"; break; case 4: in += ")$"; want += ")$"; break; default: if (j % 50 == 5) { in += "$(BIG)"; want += big; } } }
    c.check(substituteEnvVars(in) == want, "substitute", vf::str(m) + " variables"); c.check(substituteEnvVars(in + "$(V") == want + "$(V", "substitute", "an open one after many"); c.check(substituteEnvVars(s + "$(V)" + s) == s + "value" + s, "substitute", "in a long string"); c.eval();
    std::vector<int> v(n); std::string e; for (int j = 0; j < n; ++j) { v[j] = j * 37 % 1009 - 400; e += (j ? "," : "") + vf::str(v[j]); }
    c.check(arrToString(v.data(), (unsigned)n) == "[" + e + "]" && arrToString(v.begin(), v.end()) == "[" + e + "]", "arrToString", "many values");
    std::ostringstream o; toStream(o, v.begin(), v.end(), ",", "<", ">"); c.check(o.str() == "<" + e + ">", "toStream", "many values");
    if (n < 2000) { std::vector<double> d(n); std::string pe = "["; for (int j = 0; j < n; ++j) { d[j] = (j - n / 2) * 1.375; pe += (j ? "," : "") + fmt("%9.2f", d[j]); } c.check(paddedToString(9, 2, d.begin(), d.end(), ",", "[", "]") == pe + "]", "paddedToString", "many values"); }
    for (double x : {1.0 / 3, -2.0 / 3 * 1e300, 5e-324}) for (unsigned pr : {17u, 40u, 100u, 400u}) { unsigned w = std::min(n, 2000); c.check(padded(x, w, pr) == fmt("%*.*f", w, pr, x), "padded", "wide number"); c.check(scientific(x, w, pr) == fmt("%*.*e", std::max(w, pr + 7), pr, x), "scientific", "wide number"); c.check(fixedFloat(x, pr) == fmt("%.*f", pr, x), "fixedFloat", "many digits"); }
  }
}
// results that depend on earlier calls
VF_PART(C02_calls, 4) {
  clearenv(); setenv("V", "value", 1); setenv("E", "", 1); setenv("A", "a", 1); setenv("B", "bb", 1);
  std::vector<vf::Pure> P; static std::vector<std::string> S = {"", "a", "/", "ab", "a/", "/a", "b/a", "aa", "aab", "aba", "baa", "a/a", "//", "ab/ab", "aaaa", "bbbb"}, N = {"", "x", "$(V)", "$(E)", "$(A)", "$(B)", "$(A)$(B)", "$(B)$(A)", "$(NO)", "$(N)", "a$(V)", "$(V)a", "$(V", "$(A)$(V", "V", "$V", "$(V)$(V)", "$(A) $(B)"};
  static const double D[] = {0, 1, -1, 0.5, 2.5, 0.125, -0.0004, 123456.789, 1e21, 1e-9};
  for (unsigned k = 0; k < 3; ++k) { P.push_back({"replace skipping " + vf::str(k), S.size() * 2, [k](size_t i) { return sm::replace(S[i / 2], i % 2 ? '/' : 'a', i % 2 ? 'a' : 'y', k); }, [](size_t i) { return vf::quote(S[i / 2]); }}); P.push_back({"replace_reverse skipping " + vf::str(k), S.size() * 2, [k](size_t i) { return replace_reverse(S[i / 2], i % 2 ? '/' : 'a', i % 2 ? 'a' : 'y', k); }, [](size_t i) { return vf::quote(S[i / 2]); }}); }
  P.push_back({"ensureTrailingBackslash", S.size(), [](size_t i) { return ensureTrailingBackslash(S[i]); }, [](size_t i) { return vf::quote(S[i]); }});
  P.push_back({"substituteEnvVars", N.size(), [](size_t i) { return substituteEnvVars(N[i]); }, [](size_t i) { return vf::quote(N[i]); }});
  P.push_back({"leading_pad", S.size() * 4, [](size_t i) { return leading_pad(S[i / 4], i % 4 * 2, i % 2 ? '*' : ' '); }, [](size_t i) { return vf::quote(S[i / 4]) + " to " + vf::str(i % 4 * 2); }}); P.push_back({"padded text", S.size() * 4, [](size_t i) { return padded(S[i / 4], i % 4 * 2, i % 2 ? '*' : '-'); }, [](size_t i) { return vf::quote(S[i / 4]) + " to " + vf::str(i % 4 * 2); }});
  auto num = [](size_t i) { return vf::str(D[i / 9]) + ", width " + vf::str(i / 3 % 3 * 6) + ", precision " + vf::str(i % 3 * 2); };
  P.push_back({"padded", 90, [](size_t i) { return padded(D[i / 9], i / 3 % 3 * 6, i % 3 * 2); }, num}); P.push_back({"scientific", 90, [](size_t i) { return scientific(D[i / 9], i / 3 % 3 * 6, i % 3 * 2); }, num}); P.push_back({"fixedFloat", 90, [](size_t i) { return fixedFloat(D[i / 9], i % 9); }, num}); P.push_back({"ts", 90, [](size_t i) { return ts(D[i / 9]) + ts((int)i - 7); }, num});
  P.push_back({"s_tuple", 90, [](size_t i) { return s_tuple(D[i / 9], (int)(i % 3)) + s_tuple((int)i % 9, S[i % 5], D[i / 9]); }, num}); P.push_back({"paddedToString", 90, [](size_t i) { return paddedToString(i / 3 % 3 * 3, i % 3, D + i / 18, D + i / 18 + i % 4, ";", "<", ">"); }, num}); P.push_back({"arrToString", 20, [](size_t i) { return arrToString(D + i / 4, (unsigned)(i % 4)); }, num});
  P.push_back({"toStream", 90, [](size_t i) { std::ostringstream o; toStream(o, D + i / 18, D + i / 18 + i % 5, i % 2 ? "," : "--", i % 3 ? "<" : "", ">"); return o.str(); }, num});
  // changes of the environment between two calls
  vf::pure(c, P); c.sample("substituteEnvVars of '$(A)$(B)' after '$(B)$(A)'");
  if (!c.mine(0)) return;
  const char* vals[] = {NULL, "", "v", "w", "$(A)"};
  for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int e = 0; e < 5; ++e) for (auto& t : N) { c.cur("%s with A set to %d, %d and %d", t.c_str(), a, b, e); for (int v : {a, b, e}) { if (vals[v]) setenv("A", vals[v], 1); else unsetenv("A"); c.check(substituteEnvVars(t) == refenv(t), "substitute", "after the variable was changed"); c.transition(); } c.eval(t.find("$(A)") != t.npos); }
}
