// V01 value stores over property trees, V02 layered and prefixed stores, V03 path
// alternatives and logging stores.
#include "vf.hpp"
#include <boost/property_tree/ptree.hpp>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sm/BoostPropertyTree.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
using namespace sm::value_store; using sm::BoostPropertyTree;
typedef std::string S; typedef std::vector<S> P;
namespace {
struct N { S d; std::vector<std::pair<S, N>> c; };
bool operator==(const N& a, const N& b) { return a.d == b.d && a.c == b.c; }
void dump(const N& n, S& o) { o += vf::quote(n.d); if (!n.c.empty()) { o += "{"; for (auto& x : n.c) { o += x.first + "="; dump(x.second, o); o += ","; } o += "}"; } }
S dump(const N& n) { S o; dump(n, o); return o; }
N conv(const boost::property_tree::ptree& p) { N n; n.d = p.data(); for (auto& x : p) n.c.push_back({x.first, conv(x.second)}); return n; }
boost::property_tree::ptree conv(const N& n) { boost::property_tree::ptree p(n.d); for (auto& x : n.c) p.push_back({x.first, conv(x.second)}); return p; }
N content(const BoostPropertyTree& t) { N n; for (auto& x : t) n.c.push_back({x.first, conv(x.second)}); n.d = t.getString("/"); return n; }
P split(const S& q) { P r; S w; for (char ch : q) if (ch == '/') { if (!w.empty()) r.push_back(w); w.clear(); } else w += ch; if (!w.empty()) r.push_back(w); return r; }
S joinP(const P& p) { S s; for (auto& x : p) s += (s.empty() ? "" : "/") + x; return s; }
P cat(P a, const P& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
const N* find(const N& n, const P& p, size_t i = 0) { if (i == p.size()) return &n; for (auto& x : n.c) if (x.first == p[i]) return find(x.second, p, i + 1); return nullptr; }
void put(N& n, const P& p, const S& v, size_t i = 0) { if (i == p.size()) { n.d = v; return; } for (auto& x : n.c) if (x.first == p[i]) return put(x.second, p, v, i + 1); n.c.push_back({p[i], N()}); put(n.c.back().second, p, v, i + 1); }
bool asInt(const S& s, int& o) { size_t i = !s.empty() && s[0] == '-'; if (i == s.size()) return false; for (size_t j = i; j < s.size(); ++j) if (!isdigit(s[j])) return false; o = atoi(s.c_str()); return true; }
bool asDouble(const S& s, double& o) { if (s.empty()) return false; char* e; o = strtod(s.c_str(), &e); return !*e; }
bool asBool(const S& s, bool& o) { if (s == "0" || s == "false") { o = false; return true; } if (s == "1" || s == "true") { o = true; return true; } return false; }
bool asString(const S& s, S& o) { o = s; return true; }
template <class T> struct As; template <> struct As<int> { static bool f(const S& s, int& o) { return asInt(s, o); } }; template <> struct As<double> { static bool f(const S& s, double& o) { return asDouble(s, o); } }; template <> struct As<bool> { static bool f(const S& s, bool& o) { return asBool(s, o); } }; template <> struct As<S> { static bool f(const S& s, S& o) { return asString(s, o); } };
template <class T> ValueHandle<T> getv(const ValueStoreRef& r, const S& p, boost::optional<T> d = boost::optional<T>()) { return r.get<T>(p, d); }
template <class T> ValueHandle<T> gets(const ValueStoreRef& r, const S& p, boost::optional<T> d);
template <> ValueHandle<int> gets(const ValueStoreRef& r, const S& p, boost::optional<int> d) { return d ? r.getInt(p, d) : r.getInt(p); }
template <> ValueHandle<double> gets(const ValueStoreRef& r, const S& p, boost::optional<double> d) { return d ? r.getDouble(p, d) : r.getDouble(p); }
template <> ValueHandle<bool> gets(const ValueStoreRef& r, const S& p, boost::optional<bool> d) { return d ? r.getBool(p, d) : r.getBool(p); }
template <> ValueHandle<S> gets(const ValueStoreRef& r, const S& p, boost::optional<S> d) { return d ? r.getString(p, d) : r.getString(p); }
template <class T> T ptget(const sm::ConstPropertyTree& t, const S& p); template <class T> T ptget(const sm::ConstPropertyTree& t, const S& p, T d);
template <> int ptget(const sm::ConstPropertyTree& t, const S& p) { return t.getInt(p); } template <> int ptget(const sm::ConstPropertyTree& t, const S& p, int d) { return t.getInt(p, d); }
template <> double ptget(const sm::ConstPropertyTree& t, const S& p) { return t.getDouble(p); } template <> double ptget(const sm::ConstPropertyTree& t, const S& p, double d) { return t.getDouble(p, d); }
template <> bool ptget(const sm::ConstPropertyTree& t, const S& p) { return t.getBool(p); } template <> bool ptget(const sm::ConstPropertyTree& t, const S& p, bool d) { return t.getBool(p, d); }
template <> S ptget(const sm::ConstPropertyTree& t, const S& p) { return t.getString(p); } template <> S ptget(const sm::ConstPropertyTree& t, const S& p, S d) { return t.getString(p, d); }
// one typed query against the reference: value of the node, or nothing
template <class T> void get1(vf::Ctx& c, const ValueStoreRef& r, const sm::ConstPropertyTree* pt, const S& path, const S* n, T def, const S& w) {
  T e = T(); bool ok = n && As<T>::f(*n, e); T v = T(); bool thr = false;
  for (int k = 0; k < (pt ? 3 : 2); ++k) {
    thr = false; try { if (k == 2) v = ptget<T>(*pt, path); else { auto h = k ? getv<T>(r, path) : gets<T>(r, path, boost::optional<T>()); v = h.get(); T x = h; if (x != v) thr = true; } } catch (const std::exception&) { thr = true; }
    c.check(thr == !ok && (!ok || v == e), "get", S(k == 2 ? "through the property tree view, " : "") + "get of " + w + (thr ? " throws" : " gives " + vf::str(v)) + (ok ? " instead of " + vf::str(e) : " although there is no such value"));
    if (n && !ok) continue;  // a default for a value of another type is left open
    thr = false; try { v = k == 2 ? ptget<T>(*pt, path, def) : k ? getv<T>(r, path, def).get() : gets<T>(r, path, def).get(); } catch (const std::exception&) { thr = true; }
    c.check(!thr && v == (ok ? e : def), "default", S(k == 2 ? "through the property tree view, " : "") + "get of " + w + " with a default" + (thr ? " throws" : " gives " + vf::str(v)));
  }
}
void observe(vf::Ctx& c, const ValueStoreRef& r, const sm::ConstPropertyTree* pt, const S& path, const S* n, const S& w, bool light = false) {
  bool h = false, thr = false; try { h = r.hasKey(path); } catch (const std::exception&) { thr = true; }
  c.check(!thr && h == (n != nullptr), "hasKey", "hasKey of " + w + (thr ? " throws" : h ? " is true" : " is false"));
  if (pt) { thr = false; try { h = pt->doesKeyExist(path); } catch (const std::exception&) { thr = true; } c.check(!thr && h == (n != nullptr), "hasKey", "doesKeyExist of " + w + (thr ? " throws" : h ? " is true" : " is false")); }
  get1<int>(c, r, pt, path, n, 42, w); if (light) return;
  get1<S>(c, r, pt, path, n, "dflt", w); get1<double>(c, r, pt, path, n, 2.5, w); get1<bool>(c, r, pt, path, n, true, w);
}
struct St { const char* name; P ns; std::function<ExtendibleValueStoreRef(const ExtendibleValueStoreRef&)> make; };
const std::vector<St>& stores() {
  static std::vector<St> s = {{"store", {}, [](const ExtendibleValueStoreRef& r) { return r; }},
    {"child a", {"a"}, [](const ExtendibleValueStoreRef& r) { return r.getExtendibleChild("a"); }},
    {"child b of a", {"a", "b"}, [](const ExtendibleValueStoreRef& r) { return r.getChild("a").asExtendible().getExtendibleChild("b"); }}};
  return s;
}
const P PATHS = {"k", "a/k", "b", ""};
}
// operations on an extendible store, its children, the tree below it and kept handles
VF_PART(V01_ops, 8) {
  struct Hd { int type; P path; };  // reference of the two kept handles
  struct World { N m; std::vector<Hd> h; };
  struct Real { BoostPropertyTree pt; ExtendibleValueStoreRef root; std::vector<ExtendibleValueStoreRef> s; ValueHandle<int> hi; ValueHandle<S> hs; ValueHandle<double> hd; ValueHandle<bool> hb; bool set[4]; Real() : root(pt) { for (auto& x : stores()) s.push_back(x.make(root)); for (bool& b : set) b = false; } };
  struct Op { S name; std::function<S(Real&)> real; std::function<S(N&, P (&)[4], bool (&)[4])> ref; };
  std::vector<Op> O;
  for (int s = 0; s < 3; ++s) for (auto& p : PATHS) {
    P q = cat(stores()[s].ns, split(p)); S w = S(" ") + stores()[s].name + " '" + p + "'";
    O.push_back({"addInt 3" + w, [=](Real& r) { auto h = r.s[s].addInt(p, 3); return vf::str(h.get()); }, [=](N& m, P (&)[4], bool (&)[4]) { put(m, q, "3"); return S("3"); }});
    O.push_back({"addBool" + w, [=](Real& r) { auto h = r.s[s].addBool(p, true); return vf::str(h.get()); }, [=](N& m, P (&)[4], bool (&)[4]) { put(m, q, "true"); return S("1"); }});
    O.push_back({"addString x" + w, [=](Real& r) { auto h = r.s[s].addString(p, "x"); return h.get(); }, [=](N& m, P (&)[4], bool (&)[4]) { put(m, q, "x"); return S("x"); }});
    O.push_back({"addDouble" + w, [=](Real& r) { auto h = r.s[s].addDouble(p, 0.5); return vf::str(h.get()); }, [=](N& m, P (&)[4], bool (&)[4]) { put(m, q, "0.5"); return S("0.5"); }});
    O.push_back({"keep int" + w, [=](Real& r) -> S { try { auto h = r.s[s].getInt(p); r.hi = std::move(h); r.set[0] = true; return r.hi.isUpdateable() ? "kept" : "const"; } catch (const std::exception&) { return "none"; } }, [=](N& m, P (&h)[4], bool (&set)[4]) -> S { const N* n = find(m, q); int v; if (!n || !asInt(n->d, v)) return "none"; h[0] = q; set[0] = true; return "kept"; }});
    if (s < 2) O.push_back({"keep string" + w, [=](Real& r) -> S { try { auto h = r.s[s].getString(p); r.hs = std::move(h); r.set[1] = true; return r.hs.isUpdateable() ? "kept" : "const"; } catch (const std::exception&) { return "none"; } }, [=](N& m, P (&h)[4], bool (&set)[4]) -> S { const N* n = find(m, q); if (!n) return "none"; h[1] = q; set[1] = true; return "kept"; }});
    if (s == 1) O.push_back({"keep double, bool" + w, [=](Real& r) -> S { S o; try { auto h = r.s[s].getDouble(p); r.hd = std::move(h); r.set[2] = true; o += "d"; } catch (const std::exception&) {} try { auto h = r.s[s].getBool(p); r.hb = std::move(h); r.set[3] = true; o += "b"; } catch (const std::exception&) {} return o; }, [=](N& m, P (&h)[4], bool (&set)[4]) -> S { S o; const N* n = find(m, q); double d; bool b; if (n && asDouble(n->d, d)) { h[2] = q; set[2] = true; o += "d"; } if (n && asBool(n->d, b)) { h[3] = q; set[3] = true; o += "b"; } return o; }});
  }
  O.push_back({"update int handle", [](Real& r) -> S { if (!r.set[0]) return "-"; r.hi.update(11); return vf::str(r.hi.get()); }, [](N& m, P (&h)[4], bool (&set)[4]) -> S { if (!set[0]) return "-"; put(m, h[0], "11"); return "11"; }});
  O.push_back({"update string handle", [](Real& r) -> S { if (!r.set[1]) return "-"; r.hs.update("upd"); return r.hs.get(); }, [](N& m, P (&h)[4], bool (&set)[4]) -> S { if (!set[1]) return "-"; put(m, h[1], "upd"); return "upd"; }});
  O.push_back({"update double, bool handles", [](Real& r) -> S { if (r.set[2]) r.hd.update(1.5); if (r.set[3]) r.hb.update(false); return "-"; }, [](N& m, P (&h)[4], bool (&set)[4]) -> S { if (set[2]) put(m, h[2], "1.5"); if (set[3]) put(m, h[3], "false"); return "-"; }});
  O.push_back({"set 5 in the tree", [](Real& r) { r.pt.setInt("a/k", 5); return S(); }, [](N& m, P (&)[4], bool (&)[4]) { put(m, {"a", "k"}, "5"); return S(); }});
  struct Node { N m; P h[4]; bool set[4]; std::vector<int> hist; }; Node z; for (bool& b : z.set) b = false;
  auto canon = [](const Node& n) { S s = dump(n.m); for (int i = 0; i < 4; ++i) s += "|" + (n.set[i] ? joinP(n.h[i]) + "!" : S("-")); return s; };
  std::vector<Node> front{z}; std::set<S> seen{canon(z)}; uint64_t idx = 0; const int depth = c.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    std::vector<Node> next;
    for (auto& n : front) {
      bool mine = d == 0 || c.mine(idx++); if (d >= 2 && (idx * 2654435761u >> 7) % (c.thorough ? (d == 3 ? 40 : 1) : 3)) mine = false;
      for (size_t i = 0; i < O.size(); ++i) {
        Node k = n; k.hist.push_back(i); S er = O[i].ref(k.m, k.h, k.set);
        if (d + 1 < depth && seen.insert(canon(k)).second) next.push_back(k);
        if (!mine || (d == 0 && !c.mine(i))) continue;
        S hist; for (int j : n.hist) hist += O[j].name + "; "; c.cur(hist + O[i].name);
        Real r; for (int j : n.hist) O[j].real(r); S rr = O[i].real(r); c.transition(); c.trace();
        c.check(rr == er, "result", "returned " + rr + " instead of " + er);
        N got = content(r.pt); c.check(got == k.m, "content", "tree is " + dump(got) + " instead of " + dump(k.m));
        for (int q = 0; q < 4; ++q) if (k.set[q]) { const N* x = find(k.m, k.h[q]); S v, e; try { v = q == 0 ? vf::str(r.hi.get()) : q == 1 ? r.hs.get() : q == 2 ? vf::str(r.hd.get()) : vf::str(r.hb.get()); } catch (const std::exception&) { v = "throws"; } int ei; double ed; bool eb; e = q == 0 ? asInt(x->d, ei) ? vf::str(ei) : "throws" : q == 1 ? x->d : q == 2 ? asDouble(x->d, ed) ? vf::str(ed) : "throws" : asBool(x->d, eb) ? vf::str(eb) : "throws"; c.check(v == e, "handle", "kept handle reads " + v + " instead of " + e); }
        if (c.state(canon(k)) && (d < 1 || i % 13 == idx % 13)) {
          for (size_t s = 0; s < r.s.size(); ++s) { auto v = r.s[s].asPropertyTree(); for (auto& p : PATHS) { const N* x = find(k.m, cat(stores()[s].ns, split(p))); observe(c, r.s[s], &v, p, x ? &x->d : nullptr, S(stores()[s].name) + " '" + p + "'"); }
            const N* x = find(k.m, stores()[s].ns); if (x) { auto ch = r.s[s].getChildren(); auto ec = r.s[s].getExtendibleChildren(); bool same = ch.size() == x->c.size() && ec.size() == ch.size(); for (size_t q = 0; same && q < ch.size(); ++q) { same = ch[q].getKey() == x->c[q].first && ec[q].getKey() == ch[q].getKey() && ch[q].getString("").get() == x->c[q].second.d && ec[q].getString("").get() == x->c[q].second.d && ch[q].getChildren().size() == x->c[q].second.c.size(); } c.check(same, "children", S("children of ") + stores()[s].name); } }
          c.check(r.root.isEmpty() == (k.m.c.empty()), "isEmpty", "isEmpty"); c.check(content(r.pt) == k.m, "query changed", "queries changed the tree"); if (k.m.c.size() > 1) c.sample(hist + O[i].name);
        }
      }
    }
    front.swap(next);
  }
}
// every sequence of writes to one value through two handles, the store and the tree, none taken for another because the content is the same
namespace {
template <class T> struct Kind;
template <> struct Kind<int> { static ValueHandle<int> get(const ValueStoreRef& s, const S& p) { return s.getInt(p); } static void put(BoostPropertyTree& t, const S& p, int v) { t.setInt(p, v); } static void add(const ExtendibleValueStoreRef& s, const S& p, int v) { s.addInt(p, v); } static int v(int i) { return i ? 7 : -3; } static int tree(const BoostPropertyTree& t, const S& p) { return t.getInt(p); } static const char* n() { return "int"; } };
template <> struct Kind<double> { static ValueHandle<double> get(const ValueStoreRef& s, const S& p) { return s.getDouble(p); } static void put(BoostPropertyTree& t, const S& p, double v) { t.setDouble(p, v); } static void add(const ExtendibleValueStoreRef& s, const S& p, double v) { s.addDouble(p, v); } static double v(int i) { return i ? 0.1 : -2.5; } static double tree(const BoostPropertyTree& t, const S& p) { return t.getDouble(p); } static const char* n() { return "double"; } };
template <> struct Kind<bool> { static ValueHandle<bool> get(const ValueStoreRef& s, const S& p) { return s.getBool(p); } static void put(BoostPropertyTree& t, const S& p, bool v) { t.setBool(p, v); } static void add(const ExtendibleValueStoreRef& s, const S& p, bool v) { s.addBool(p, v); } static bool v(int i) { return i; } static bool tree(const BoostPropertyTree& t, const S& p) { return t.getBool(p); } static const char* n() { return "bool"; } };
template <> struct Kind<S> { static ValueHandle<S> get(const ValueStoreRef& s, const S& p) { return s.getString(p); } static void put(BoostPropertyTree& t, const S& p, const S& v) { t.setString(p, v); } static void add(const ExtendibleValueStoreRef& s, const S& p, const S& v) { s.addString(p, v); } static S v(int i) { return i ? "one" : ""; } static S tree(const BoostPropertyTree& t, const S& p) { return t.getString(p); } static const char* n() { return "string"; } };
template <class T> void written(vf::Ctx& c, uint64_t& n) {
  typedef Kind<T> K; const int depth = c.thorough ? 5 : 4; const char* ops[] = {"h=0", "h=1", "g=0", "g=1", "tree=0", "tree=1", "store=0", "store=1", "h.get", "g.get"}; const int NO = 10;
  for (int st = 0; st < 5; ++st) for (int every = 0; every < 2; ++every) {
    uint64_t total = 1; for (int d = 0; d < depth; ++d) total *= NO;
    for (uint64_t code = 0; code < total; ++code) {
      if (!c.mine(n++ / 16)) continue;
      S path = st == 0 ? "a/k" : "k"; BoostPropertyTree pt; K::put(pt, "a/k", K::v(0)); ValueStoreRef root(pt), s = root;
      if (st == 1) s = root.getChild("a"); if (st == 2) s = ValueStoreRef(std::make_shared<PrefixedValueStore>(root, PrefixedValueStore::PrefixMode::ADD, "a")); if (st == 3) { auto l = std::make_shared<LayeredValueStore>(); l->add(ValueStoreRef(BoostPropertyTree())); l->add(root.getChild("a")); s = ValueStoreRef(l); } if (st == 4) s = ValueStoreRef(std::make_shared<VerboseValueStore>(root.getChild("a").getValueStoreSharedPtr(), [](const S&) {}));
      ValueHandle<T> h = K::get(s, path), g = K::get(root, "a/k"); ExtendibleValueStoreRef ex(pt); T now = K::v(0); S hist; uint64_t x = code;
      auto look = [&] { c.check(h.get() == now && g.get() == now, "handle", "a handle reads " + vf::str(h.get()) + " and another one " + vf::str(g.get()) + " instead of " + vf::str(now)); c.check(K::tree(pt, "a/k") == now && K::get(s, path).get() == now, "value", "the value is " + vf::str(K::tree(pt, "a/k")) + " instead of " + vf::str(now)); };
      for (int d = 0; d < depth; ++d, x /= NO) {
        int o = x % NO; hist += S(" ") + ops[o]; c.cur("%s, store %d:%s", K::n(), st, hist.c_str()); T v = K::v(o & 1);
        switch (o / 2) { case 0: h.update(v); now = v; break; case 1: g.update(v); now = v; break; case 2: K::put(pt, "a/k", v); now = v; break; case 3: K::add(ex, "a/k", v); now = v; break; default: c.check((o == 8 ? h : g).get() == now, "handle", "a handle reads another value"); }
        c.transition(); if (every) look();
      }
      look(); c.eval(); c.trace(); if (!every) c.state(vf::str(st) + K::n() + hist);
    }
  }
}
}
VF_PART(V01_written, 8) { uint64_t n = 0; written<int>(c, n); written<double>(c, n); written<bool>(c, n); written<S>(c, n); c.sample("int, store 0: h=1 g=0 h=1 tree=0"); }
VF_PART(V01_refs) {
  S dir = c.scratch(); std::vector<N> T; { N n; T.push_back(n); put(n, {"d"}, "1"); T.push_back(n); put(n, {"s", "k"}, "true"); T.push_back(n); N m; put(m, {"s", "a"}, "x"); put(m, {"s", "b"}, "0.5"); T.push_back(m); }
  for (auto& m : T) for (S e : {"xml", "json", "ini", "info"}) {
    c.cur("saveTo %s of %s", e.c_str(), dump(m).c_str()); c.eval(!m.c.empty()); BoostPropertyTree t(conv(m)); ValueStoreRef r(t); S f = dir + "/f." + e; c.check(r.canSave(), "canSave", "canSave"); r.saveTo(f);
    ValueStoreRef a = ValueStoreRef::fromFile(f); ExtendibleValueStoreRef b = ExtendibleValueStoreRef::fromFile(f); BoostPropertyTree l; l.load(f);
    for (S p : {"d", "s", "s/k", "s/a", "s/b", "none"}) { const N* x = find(m, split(p)); observe(c, a, nullptr, p, x ? &x->d : nullptr, p); observe(c, b, nullptr, p, x ? &x->d : nullptr, p); }
    b.addInt("new", 4); c.check(b.getInt("new").get() == 4 && !a.hasKey("new") && !r.hasKey("new"), "separate", "stores from the same file share values"); c.check(a.isEmpty() == m.c.empty(), "isEmpty", "isEmpty");
  }
  struct X { S s; N m; }; std::vector<X> X_; { N n; put(n, {"d"}, "0.1"); put(n, {"s"}, "hello"); put(n, {"a", "d"}, "1"); put(n, {"b", "u"}, "3"); X_.push_back({"d=0.1,s=hello,a/d=1,b{u=3}", n}); X_.push_back({"", N()}); N q; put(q, {"c", "b", "u"}, "3"); X_.push_back({"c/b{u=3}", q}); }
  for (auto& x : X_) { c.cur("fromString " + x.s); c.eval(); ValueStoreRef a = ValueStoreRef::fromString(x.s); ExtendibleValueStoreRef b = ExtendibleValueStoreRef::fromString(x.s); for (S p : {"d", "s", "a/d", "b/u", "c/b/u", "c", "zz"}) { const N* n = find(x.m, split(p)); observe(c, a, nullptr, p, n ? &n->d : nullptr, p); observe(c, b, nullptr, p, n ? &n->d : nullptr, p); } c.check(a.isExtendible() && b.isExtendible() && a.canSave(), "kind", "kind"); a.asExtendible().addInt("via", 1); c.check(a.getInt("via").get() == 1, "asExtendible", "asExtendible does not share the store"); }
  { c.cur("null"); c.eval(); bool t = false; try { ValueStoreRef r((ValueStore::SharedPtr())); } catch (const std::runtime_error&) { t = true; } c.check(t, "null", "null store accepted"); ValueStoreRef d; c.check(d.isEmpty() && !d.hasKey("x") && d, "empty", "default store"); ExtendibleValueStoreRef ed; ed.addInt("x", 1); ExtendibleValueStoreRef ed2; c.check(ed.hasKey("x") && !ed2.hasKey("x"), "empty", "default stores share"); }
  { c.cur("other kinds"); c.eval(); ValueStoreRef r(std::make_shared<LayeredValueStore>(ValueStoreRef().getValueStoreSharedPtr())); for (auto x : {r, ValueStoreRef(std::make_shared<PrefixedValueStore>(ValueStoreRef(), PrefixedValueStore::PrefixMode::ADD, "p")), ValueStoreRef(std::make_shared<VerboseValueStore>(ValueStoreRef().getValueStoreSharedPtr(), [](const S&) {}))}) { bool t = false, t2 = false; try { x.saveTo(dir + "/n.xml"); } catch (const std::exception&) { t = true; } try { x.asExtendible(); } catch (const std::exception&) { t2 = true; } c.check(!x.canSave() && t && !x.isExtendible() && t2, "kind", "canSave/isExtendible of a store that is neither"); } }
  { c.cur("handles"); ValueHandle<int> e; c.check(e.empty(), "handle", "empty"); ValueHandle<int> v(7); int i = v; c.check(!v.empty() && i == 7 && v.get() == 7 && !v.isUpdateable(), "handle", "constant"); e = std::move(v); c.check(e.get() == 7 && v.empty(), "handle", "moved"); BoostPropertyTree t; ValueStoreRef r(t); auto h = r.getInt("k", 5); c.check(h.get() == 5 && !h.isUpdateable() && !r.hasKey("k"), "default", "a default was stored"); c.eval(); }
}
// ---- compositions
namespace {
struct Ex { int kind; std::vector<std::shared_ptr<Ex>> sub; S arg; int base; };  // 0 base, 1 layered, 2 prefix added, 3 prefix removed, 4 child, 5 verbose
typedef std::shared_ptr<Ex> E;
const N& base(int i) { static std::vector<N> b; if (b.empty()) { b.resize(3); put(b[0], {"a"}, "1"); put(b[0], {"p", "a"}, "2"); put(b[0], {"p", "q", "a"}, "3"); put(b[1], {"a"}, "11"); put(b[1], {"b"}, "12"); put(b[1], {"q", "b"}, "13"); put(b[1], {"p", "b"}, "14"); put(b[1], {"p"}, "15"); put(b[2], {"c"}, "x"); } return b[i]; }
const S* look(const E& e, const P& p) {
  switch (e->kind) {
    case 0: { const N* n = find(base(e->base), p); return n ? &n->d : nullptr; }
    case 1: for (auto& s : e->sub) if (const S* r = look(s, p)) return r; return nullptr;
    case 2: return look(e->sub[0], cat(split(e->arg), p));
    case 3: { P q = split(e->arg); if (p.size() < q.size() || !std::equal(q.begin(), q.end(), p.begin())) return nullptr; return look(e->sub[0], P(p.begin() + q.size(), p.end())); }
    case 4: return look(e->sub[0], cat(split(e->arg), p));
    default: return look(e->sub[0], p);
  }
}
S name(const E& e) { switch (e->kind) { case 0: return "AB" "C" + S() == "" ? "" : S(1, 'A' + e->base); case 1: { S s = "layers("; for (auto& x : e->sub) s += name(x) + " "; return s + ")"; } case 2: return "add(" + name(e->sub[0]) + ",'" + e->arg + "')"; case 3: return "remove(" + name(e->sub[0]) + ",'" + e->arg + "')"; case 4: return "child(" + name(e->sub[0]) + ",'" + e->arg + "')"; default: return "verbose(" + name(e->sub[0]) + ")"; } }
bool listable(const E& e) { if (e->kind == 2 || e->kind == 3) return false; for (auto& s : e->sub) if (!listable(s)) return false; return true; }
ValueStoreRef real(const E& e, std::vector<BoostPropertyTree>& pts) {
  switch (e->kind) {
    case 0: return ValueStoreRef(pts[e->base]);
    case 1: { auto l = std::make_shared<LayeredValueStore>(); for (auto& s : e->sub) { ValueStoreRef r = real(s, pts); if (e->sub.size() % 2) l->add(r); else l->add(r.getValueStoreSharedPtr()); } return ValueStoreRef(l); }
    case 2: return ValueStoreRef(std::make_shared<PrefixedValueStore>(real(e->sub[0], pts), PrefixedValueStore::PrefixMode::ADD, e->arg));
    case 3: return ValueStoreRef(std::make_shared<PrefixedValueStore>(real(e->sub[0], pts), PrefixedValueStore::PrefixMode::REMOVE, e->arg));
    case 4: return real(e->sub[0], pts).getChild(e->arg);
    default: return ValueStoreRef(std::make_shared<VerboseValueStore>(real(e->sub[0], pts).getValueStoreSharedPtr(), [](const S&) {}));
  }
}
E mk(int k, std::vector<E> s, S a = "", int b = 0) { auto e = std::make_shared<Ex>(); e->kind = k; e->sub = s; e->arg = a; e->base = b; return e; }
std::vector<E> grow(const std::vector<E>& from, const std::vector<E>& all, int maxl) {
  std::vector<E> r; for (auto& e : from) { for (S a : {"p", "q", "p/q"}) { r.push_back(mk(2, {e}, a)); r.push_back(mk(3, {e}, a)); } for (S a : {"p", "q", "p/q", "zz"}) r.push_back(mk(4, {e}, a)); r.push_back(mk(5, {e})); r.push_back(mk(1, {e})); if (maxl > 1) for (auto& f : all) { r.push_back(mk(1, {e, f})); r.push_back(mk(1, {f, e})); } if (maxl > 2) for (auto& f : all) for (auto& g : all) r.push_back(mk(1, {e, f, g})); } return r;
}
}
// every composition of layers, prefixes, children and logging wrappers up to a size, every path
VF_PART(V02_compositions, 8) {
  std::vector<E> B = {mk(0, {}, "", 0), mk(0, {}, "", 1), mk(0, {}, "", 2)}; auto L1 = grow(B, B, 3), B1 = L1; B1.insert(B1.end(), B.begin(), B.end()); B1.push_back(mk(1, {}));
  auto L2 = grow(L1, B, 2); std::vector<E> all = B1; all.insert(all.end(), L2.begin(), L2.end()); if (c.thorough) { auto L3 = grow(L2, B, 1); all.insert(all.end(), L3.begin(), L3.end()); for (auto& a : L1) for (auto& b : L1) { all.push_back(mk(1, {a, b})); all.push_back(mk(4, {mk(1, {a, b})}, "p")); } }
  else { size_t i = 0; auto L3 = grow(L2, B, 1); for (auto& e : L3) if (++i % 5 == 0) all.push_back(e); }
  const P paths = {"", "a", "b", "c", "p", "p/a", "p/b", "q", "q/a", "q/b", "p/q", "p/q/a", "p/q/b", "q/p/a", "p/p/a", "q/q/b", "p/q/p/a", "p/p/q/a", "zz"};
  for (size_t i = 0; i < all.size(); ++i) {
    if (!c.mine(i)) continue; c.cur(name(all[i])); std::vector<BoostPropertyTree> pts; for (int b = 0; b < 3; ++b) pts.emplace_back(conv(base(b))); c.state(name(all[i])); c.trace();
    ValueStoreRef r = real(all[i], pts); sm::ConstPropertyTree view = r.asPropertyTree(); bool any = false;
    for (auto& p : paths) { const S* e = look(all[i], split(p)); if (p.empty()) { if (!e) continue; } any |= e != nullptr; c.transition(); observe(c, r, (i / 8) % 4 ? nullptr : &view, p, e, vf::quote(p), (i / 8) % 8 > 0); }
    if (listable(all[i])) { // children: the union of the layers'
      std::map<S, int> want; for (S k : {"a", "b", "c", "p", "q"}) if (look(all[i], {k})) want[k] = 1; bool thr = false; std::vector<KeyValueStorePair> ch; S what; try { ch = r.getChildren(); } catch (const std::exception& x) { thr = true; what = x.what(); }
      c.check(!thr, "children", "getChildren throws " + what); std::set<S> got; for (auto& x : ch) { got.insert(x.getKey()); const S* e = look(all[i], {x.getKey()}); c.check(e && x.hasKey("") && x.getString("").get() == *e, "children", "child " + x.getKey()); for (S s : {"a", "b", "q", "q/a"}) { const S* g = look(all[i], cat({x.getKey()}, split(s))); c.check(x.hasKey(s) == (g != nullptr) && (!g || x.getString(s).get() == *g), "children", "child " + x.getKey() + " has another " + s); } }
      c.check(thr || (got.size() == ch.size() && got.size() == want.size()), "children", vf::str(ch.size()) + " children instead of " + vf::str(want.size()));
    }
    for (int b = 0; b < 3; ++b) c.check(content(pts[b]) == base(b), "query changed", "queries changed a store"); c.eval(any); if (i % 331 == 7) c.sample(name(all[i]));
  }
}
// many layers, and long chains of wrappers
VF_PART(V02_large, 4) {
  std::vector<E> B; for (int b = 0; b < 3; ++b) B.push_back(mk(0, {}, "", b)); std::vector<E> X = {B[0], B[1], B[2], mk(2, {B[0]}, "p"), mk(3, {B[1]}, "p"), mk(4, {B[0]}, "p"), mk(1, {}), mk(5, {B[1]})};
  const P paths = {"a", "b", "c", "p", "p/a", "p/b", "q", "q/b", "p/q/a", "p/p/a", "zz"}; std::vector<std::pair<S, E>> all;
  for (int n : {3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100}) for (size_t x = 0; x < X.size(); ++x) for (size_t y = 0; y < X.size(); ++y) {
    if (x == y) continue;
    std::vector<E> l(n, X[x]); l.back() = X[y]; all.push_back({vf::str(n) + " layers, the last one different", mk(1, l)}); if (n % 2) continue;
    l.assign(n, mk(1, {})); l[n / 2] = X[x]; l[n - 1] = X[y]; all.push_back({vf::str(n) + " layers, two not empty", mk(1, l)});
    E e = X[y]; for (int i = 0; i < n; ++i) e = i % 3 ? mk(1, {e}) : mk(1, {mk(1, {}), e}); all.push_back({"layers in layers, " + vf::str(n) + " deep", mk(1, {X[x], e})});
    e = X[x]; for (int i = 0; i < n; ++i) e = mk(i % 2 ? 3 : 2, {e}, "p/q"); all.push_back({vf::str(n) + " prefixes", mk(1, {e, X[y]})});
    e = X[x]; for (int i = 0; i < n; ++i) e = mk(5, {e}); all.push_back({vf::str(n) + " loggers", mk(1, {e, X[y]})});
  }
  for (size_t i = 0; i < all.size(); ++i) {
    if (!c.mine(i)) continue; const E& x = all[i].second; c.cur(all[i].first + ", case " + vf::str(i)); std::vector<BoostPropertyTree> pts; for (int b = 0; b < 3; ++b) pts.emplace_back(conv(base(b))); c.state(vf::str(i)); c.trace(); bool any = false;
    ValueStoreRef r = real(x, pts); sm::ConstPropertyTree view = r.asPropertyTree(); for (auto& p : paths) { const S* e = look(x, split(p)); any |= e != nullptr; c.transition(); observe(c, r, i / 4 % 4 ? nullptr : &view, p, e, vf::quote(p), i / 4 % 8 > 0); }
    if (listable(x)) { std::set<S> want, got; for (S k : {"a", "b", "c", "p", "q"}) if (look(x, {k})) want.insert(k); auto ch = r.getChildren(); for (auto& k : ch) { got.insert(k.getKey()); const S* e = look(x, {k.getKey()}); c.check(e && k.hasKey("") && k.getString("").get() == *e, "children", "child " + k.getKey()); } c.check(got == want && ch.size() == want.size(), "children", vf::str(ch.size()) + " children instead of " + vf::str(want.size())); }
    for (int b = 0; b < 3; ++b) c.check(content(pts[b]) == base(b), "query changed", "queries changed a store"); c.eval(any); if (i % 331 == 7) c.sample(all[i].first);
  }
}
// prefixes against every path up to two edits away from a path below them
VF_PART(V02_prefixes, 4) {
  const S AL = "preabk/"; const P pre = {"pre", "a/b", "p", "pp", "a/a"}, keys = {"a", "b/k", "pre", "k"}; N m; put(m, {"a"}, "1"); put(m, {"b", "k"}, "2"); put(m, {"pre"}, "3"); put(m, {"pre", "a"}, "4"); put(m, {"a", "b"}, "5"); put(m, {"a", "b", "a"}, "6"); put(m, {"p"}, "7"); put(m, {"e", "a"}, "8"); put(m, {"r"}, "9"); uint64_t idx = 0;
  auto edits = [&](const std::set<S>& from) { std::set<S> r(from); for (auto& s : from) { for (size_t i = 0; i < s.size(); ++i) { r.insert(s.substr(0, i) + s.substr(i + 1)); for (char x : AL) r.insert(s.substr(0, i) + x + s.substr(i + 1)); if (i + 1 < s.size()) { S q = s; std::swap(q[i], q[i + 1]); r.insert(q); } } for (size_t i = 0; i <= s.size(); ++i) for (char x : AL) r.insert(s.substr(0, i) + x + s.substr(i)); } return r; };
  for (auto& f : pre) for (auto& k : keys) {
    std::set<S> paths = edits(edits({f + "/" + k}));
    for (int add = 0; add < 2; ++add) {
      BoostPropertyTree t(conv(m)); ValueStoreRef r(std::make_shared<PrefixedValueStore>(ValueStoreRef(t), add ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE, f));
      for (auto& p : paths) {
        if (p.empty() || p[0] == '/' || p.back() == '/' || p.find("//") != S::npos) continue; if (!c.mine(idx++)) continue;
        P q = split(p), g = split(f); const N* n = nullptr; if (add) n = find(m, cat(g, q)); else if (q.size() > g.size() && std::equal(g.begin(), g.end(), q.begin())) n = find(m, P(q.begin() + g.size(), q.end())); else if (q == g) continue;
        c.cur("%s prefix %s, path %s", add ? "add" : "remove", f.c_str(), p.c_str()); c.transition(); c.trace(); c.eval(n != nullptr); c.state(f + "|" + p + (add ? "+" : "-")); observe(c, r, nullptr, p, n ? &n->d : nullptr, vf::quote(p), idx % 4 != 0); if (idx % 9973 == 0) c.sample(f + " " + p);
      }
    }
  }
}
// writing through compositions reaches the store the value came from
// every sequence of writes to three trees and of reads through stores made of them beforehand
namespace {
std::vector<E> standing() {
  std::vector<E> B = {mk(0, {}, "", 0), mk(0, {}, "", 1), mk(0, {}, "", 2)}; E l3 = mk(1, B), pre = mk(2, {B[1]}, "p");
  return {l3, mk(1, {pre, B[0]}), mk(5, {l3}), mk(4, {l3}, "p"), mk(1, {mk(1, {B[0], B[1]}), B[2]}), mk(2, {l3}, "p"), mk(3, {l3}, "p"), mk(1, {mk(3, {B[0]}, "p"), mk(5, {B[1]}), mk(4, {B[2]}, "p")})};
}
const S* lookIn(const E& e, const P& p, const N* (&b)[3]) {
  switch (e->kind) {
    case 0: { const N* n = find(*b[e->base], p); return n ? &n->d : nullptr; }
    case 1: for (auto& s : e->sub) if (const S* r = lookIn(s, p, b)) return r; return nullptr;
    case 2: case 4: return lookIn(e->sub[0], cat(split(e->arg), p), b);
    case 3: { P q = split(e->arg); if (p.size() < q.size() || !std::equal(q.begin(), q.end(), p.begin())) return nullptr; return lookIn(e->sub[0], P(p.begin() + q.size(), p.end()), b); }
    default: return lookIn(e->sub[0], p, b);
  }
}
}
VF_PART(V02_histories, 8) {
  struct Wr { int base; const char* path; }; const Wr wr[] = {{0, "k"}, {0, "p/k"}, {1, "k"}, {1, "p/k"}, {2, "k"}, {2, "p/k"}}; const P paths = {"k", "p/k"}; auto S_ = standing();
  const int NO = 6 + 2 * 3 + 1, depth = c.thorough ? 5 : 4; uint64_t total = 1; for (int d = 0; d < depth; ++d) total *= NO; uint64_t n = 0;
  for (size_t s = 0; s < S_.size(); ++s) for (uint64_t code = 0; code < total; ++code) {
    { uint64_t x = code; for (int d = 1; d < depth; ++d) x /= NO; if (x < 6) continue; } if (!c.mine(n++ / 64)) continue; // the last operation is a read
    N m[3]; put(m[2], {"k"}, "20"); put(m[2], {"p", "k"}, "21"); const N* b[3] = {m, m + 1, m + 2}; std::vector<BoostPropertyTree> pts; for (int i = 0; i < 3; ++i) pts.emplace_back(conv(m[i]));
    ValueStoreRef r = real(S_[s], pts); S hist; uint64_t x = code;
    for (int d = 0; d < depth; ++d, x /= NO) {
      int o = x % NO; c.transition();
      if (o < 6) { S v = vf::str(d * 10 + o + 100); hist += vf::str(wr[o].base) + ":" + wr[o].path + "=" + v + "; "; put(m[wr[o].base], split(wr[o].path), v); pts[wr[o].base].setString(wr[o].path, v); continue; }
      if (o == 12) { hist += "children; "; c.cur(name(S_[s]) + ": " + hist); if (!listable(S_[s])) continue; for (auto& ch : r.getChildren()) { const S* e = lookIn(S_[s], {ch.getKey()}, b); c.check(e && ch.getString("").get() == *e, "children", "child " + ch.getKey() + " is " + ch.getString("", S("absent")).get()); } continue; }
      const S& p = paths[(o - 6) % 2]; int how = (o - 6) / 2; hist += S(how == 0 ? "get " : how == 1 ? "has, default " : "child ") + p + "; "; c.cur(name(S_[s]) + ": " + hist); const S* e = lookIn(S_[s], split(p), b);
      S g; if (how == 1) { c.check(r.hasKey(p) == (e != nullptr), "hasKey", "hasKey " + p); g = vf::str(r.getInt(p, -1).get()); } else try { g = how == 0 ? r.getString(p).get() : r.getChild(p).getString("").get(); } catch (const std::exception&) { g = "-1"; }
      c.check(g == (e ? *e : S("-1")), "value", p + " is " + g + " instead of " + (e ? *e : S("absent")));
    }
    c.eval(); c.trace(); c.state(vf::str(s) + hist); if (n % 9973 == 0) c.sample(name(S_[s]) + ": " + hist);
  }
}
VF_PART(V02_updates, 4) {
  std::vector<E> B = {mk(0, {}, "", 0), mk(0, {}, "", 1), mk(0, {}, "", 2)}; auto L1 = grow(B, B, 3), L2 = grow(L1, B, 2); std::vector<E> all = L1; all.insert(all.end(), L2.begin(), L2.end());
  const P paths = {"a", "b", "p/a", "p/b", "q/b", "p/q/a", "p/p/a"};
  for (size_t i = 0; i < all.size(); ++i) for (auto& p : paths) {
    if (!c.mine(i)) continue; const S* e = look(all[i], split(p)); int ev; if (!e || !asInt(*e, ev)) continue; c.cur("update of %s in %s", p.c_str(), name(all[i]).c_str()); c.transition(); c.trace(); c.eval(); c.state(name(all[i]) + p);
    std::vector<BoostPropertyTree> pts; for (int b = 0; b < 3; ++b) pts.emplace_back(conv(base(b))); ValueStoreRef r = real(all[i], pts); auto h = r.getInt(p); c.check(h.isUpdateable(), "updateable", "not updateable"); if (!h.isUpdateable()) continue; h.update(99); c.check(h.get() == 99 && r.getInt(p).get() == 99, "update", "the update is not seen");
    int diffs = 0; std::function<void(const N&, const N&)> cmp = [&](const N& a, const N& b) { if (a.d != b.d) { ++diffs; if (a.d != *e || b.d != "99") diffs += 100; } if (a.c.size() != b.c.size()) { diffs += 100; return; } for (size_t k = 0; k < a.c.size(); ++k) cmp(a.c[k].second, b.c[k].second); };
    for (int b = 0; b < 3; ++b) cmp(base(b), content(pts[b])); c.check(diffs == 1, "update", "the update changed other values");
  }
  for (int n = 0; n < 2; ++n) { c.cur("no layers"); LayeredValueStore l; if (n) l.add(std::shared_ptr<ValueStore>()); ValueStoreRef r(l); const S* none = nullptr; observe(c, r, nullptr, "x", none, "a store without layers"); c.check(r.getChildren().empty(), "children", "children of nothing"); observe(c, r.getChild("k"), nullptr, "x", none, "a child of a store without layers"); }
}
// ---- lists of alternatives
VF_PART(V03_alternatives, 4) {
  P A = {"a", "b/c", "new", "!a", "!b/c", "!new", "!", "text", "z"}; const int L = c.thorough ? 6 : 5; BoostPropertyTree t0; uint64_t idx = 0;
  for (int mask = 0; mask < 8; ++mask) { // which of a, b/c, text exist
    BoostPropertyTree t; if (mask & 1) t.setInt("a", 1); if (mask & 2) t.setInt("b/c", 2); if (mask & 4) t.setInt("text", 3); t.setInt("", 9); ValueStoreRef r(t);
    std::function<const S*(const S&)> has = [&](const S& p) -> const S* { static S one("1"), two("2"), three("3"), nine("9"); if (p.empty()) return &nine; if (p == "a") return mask & 1 ? &one : nullptr; if (p == "b/c") return mask & 2 ? &two : nullptr; if (p == "text") return mask & 4 ? &three : nullptr; return nullptr; };
    for (int len = 1; len <= L; ++len) { uint64_t n = 1; for (int i = 0; i < len; ++i) n *= A.size();
      for (uint64_t k = 0; k < n; ++k) {
        if (!c.mine(idx++)) continue; if (!c.thorough && len == 5 && k % 5 != 2) continue;
        P v; uint64_t x = k; for (int i = 0; i < len; ++i, x /= A.size()) v.push_back(A[x % A.size()]);
        S found; bool ok = false; std::vector<std::pair<S, S>> al; bool deflt = false;
        for (size_t i = 0; i < v.size() && !ok; ++i) { if (v[i][0] == '!') { S p = v[i].substr(1); if (has(p)) { ok = true; found = p; deflt = i + 1 >= v.size(); al.push_back({p, deflt ? "" : v[i + 1]}); } ++i; } else if (has(v[i])) { ok = true; found = v[i]; } }
        S nm; for (auto& y : v) nm += y + "|"; c.cur("exists %d, alternatives %s", mask, nm.c_str()); c.eval(ok); c.transition();
        std::vector<std::pair<S, S>> got; auto hd = [&](S p, S a) { got.push_back({p, a}); };
        bool thr = false; int val = 0; try { val = r.get<int>(v, boost::optional<int>(), hd).get(); } catch (const std::exception&) { thr = true; }
        c.check(thr == !ok && (thr || vf::str(val) == *has(found)), "alternative", thr ? "throws" : "gives " + vf::str(val));
        c.check(got.size() == al.size() && (al.empty() || (got[0].first == al[0].first && (deflt ? got[0].second.find(found) != S::npos : got[0].second == al[0].second))), "alert", vf::str(got.size()) + " alerts" + (got.empty() ? S() : ", " + got[0].first + ": " + got[0].second));
        if (k % 3 == 0) { got.clear(); int d = r.get<int>(v, 77, hd).get(); c.check(d == (ok ? atoi(has(found)->c_str()) : 77) && got.size() == al.size(), "default", "gives " + vf::str(d)); std::streambuf* o = std::cerr.rdbuf(); std::ostringstream ss; std::cerr.rdbuf(ss.rdbuf()); try { S q = r.get<S>(v, S("d")).get(); std::cerr.rdbuf(o); c.check(q == (ok ? *has(found) : "d") && ss.str().empty() == al.empty(), "no handler", "gives " + q); } catch (...) { std::cerr.rdbuf(o); c.failpl("no handler", "throws"); } }
        if (idx % 9973 == 0) c.sample(nm); c.state(nm + vf::str(mask));
      } }
  }
}
// every sequence of accesses and changes: one line for each access, with the value it gave
VF_PART(V03_log_histories, 4) {
  const int NO = 12, depth = c.thorough ? 6 : 4; uint64_t total = 1; for (int d = 0; d < depth; ++d) total *= NO;
  for (uint64_t code = 0; code < total; ++code) {
    if (!c.mine(code / 32)) continue; BoostPropertyTree t; t.setInt("i", 4); t.setInt("c/i", 6); std::vector<S> log; auto lg = [&](const S& s) { log.push_back(s); };
    ExtendibleValueStoreRef under(t); auto evs = std::make_shared<VerboseExtendibleValueStore>(under.getValueStoreSharedPtr(), lg); ValueStoreRef r{std::shared_ptr<ValueStore>(evs)}; ExtendibleValueStoreRef e(std::static_pointer_cast<ExtendibleValueStore>(evs)); ValueStoreRef ch = r.getChild("c"); log.clear();
    S hist; uint64_t x = code; N m; put(m, {"i"}, "4"); put(m, {"c", "i"}, "6");
    for (int d = 0; d < depth; ++d, x /= NO) {
      int o = x % NO; log.clear(); S func, path, val; bool def = false; size_t lines = 1; const N* I = find(m, {"i"}); const N* Z = find(m, {"z"}); const char* nm[] = {"getInt i", "getInt i or 4", "getString i", "hasKey i", "hasKey z", "getInt z or 4", "child getInt i", "addInt i 4", "addInt z 4", "tree i=4", "tree i=5", "getDouble i"}; hist += S(nm[o]) + "; "; c.cur(hist); c.transition();
      switch (o) {
        case 0: val = vf::str(r.getInt("i").get()); func = "getInt"; path = "i"; c.check(val == I->d, "value", "gives " + val); break;
        case 1: val = vf::str(r.getInt("i", 4).get()); func = "getInt"; path = "i"; c.check(val == I->d, "value", "gives " + val); break;
        case 2: val = r.getString("i").get(); func = "getString"; path = "i"; c.check(val == I->d, "value", "gives " + val); break;
        case 3: c.check(r.hasKey("i"), "value", "no key"); func = "hasKey"; path = "i"; val = "1"; break;
        case 4: c.check(r.hasKey("z") == (Z != nullptr), "value", "hasKey z"); func = "hasKey"; path = "z"; val = Z ? "1" : "0"; break;
        case 5: val = vf::str(r.getInt("z", 4).get()); c.check(val == "4", "value", "gives " + val); func = "getInt"; path = "z"; def = !Z; break;
        case 6: val = vf::str(ch.getInt("i").get()); c.check(val == "6", "value", "gives " + val); func = "child(c)"; path = "i"; break;
        case 7: e.addInt("i", 4); put(m, {"i"}, "4"); func = "addInt"; path = "i"; val = "4"; break;
        case 8: e.addInt("z", 4); put(m, {"z"}, "4"); func = "addInt"; path = "z"; val = "4"; break;
        case 9: t.setInt("i", 4); put(m, {"i"}, "4"); lines = 0; break;
        case 10: t.setInt("i", 5); put(m, {"i"}, "5"); lines = 0; break;
        default: r.getDouble("i"); func = "getDouble"; path = "i"; val = I->d; break;
      }
      c.check(log.size() == lines, "log", vf::str(log.size()) + " log lines instead of " + vf::str(lines)); if (lines && log.size() == 1) { c.check(log[0].find(func) != S::npos && log[0].find(path) != S::npos && log[0].find(val) != S::npos, "log", "logged " + log[0]); c.check((log[0].find("DEFAULT") != S::npos) == def, "log", "logged " + log[0]); }
    }
    c.eval(); c.trace(); c.state(hist); if (code % 4999 == 0) c.sample(hist);
  }
}
VF_PART(V03_verbose) {
  for (int ext = 0; ext < 2; ++ext) for (int mask = 0; mask < 4; ++mask) {
    BoostPropertyTree t; if (mask & 1) { t.setInt("i", 4); t.setDouble("d", 0.5); t.setBool("b", true); t.setString("s", "x y"); } if (mask & 2) t.setInt("c/i", 6); std::vector<S> log; auto lg = [&](const S& s) { log.push_back(s); };
    std::shared_ptr<ValueStore> vs; std::shared_ptr<VerboseExtendibleValueStore> evs; ExtendibleValueStoreRef under(t); if (ext) vs = evs = std::make_shared<VerboseExtendibleValueStore>(under.getValueStoreSharedPtr(), lg); else vs = std::make_shared<VerboseValueStore>(static_cast<ValueStoreRef&>(under).getValueStoreSharedPtr(), lg);
    ValueStoreRef r(vs); auto one = [&](const S& what, const S& path, const S& val) { c.check(log.size() == 1, "log", vf::str(log.size()) + " log lines for " + what); if (log.size() == 1) c.check(log[0].find(what) != S::npos && log[0].find(path) != S::npos && log[0].find(val) != S::npos, "log", "logged " + log[0] + " for " + what + " of " + path + " giving " + val); log.clear(); };
    for (S p : {"i", "d", "b", "s", "c/i", "none"}) {
      c.cur("verbose %d, values %d, %s", ext, mask, p.c_str()); c.eval(); S v; bool h = r.hasKey(p); one("hasKey", p, h ? "1" : "0"); c.check(h == t.doesKeyExist(p), "hasKey", "differs");
      for (int d = 0; d < 2; ++d) {
        auto cmp = [&](const S& nm, std::function<S()> a, std::function<S()> b) { S x, y; bool tx = false, ty = false; try { x = a(); } catch (const std::exception&) { tx = true; } try { y = b(); } catch (const std::exception&) { ty = true; } c.check(tx == ty && x == y, nm, "gives " + (tx ? S("exception") : x) + " instead of " + (ty ? S("exception") : y)); if (!tx) { if (log.size() == 1 && d && !h) c.check(log[0].find("DEFAULT") != S::npos, "log", "default not marked: " + log[0]); if (log.size() == 1 && h) c.check(log[0].find("DEFAULT") == S::npos, "log", "marked as default: " + log[0]); one(nm, p, x); } log.clear(); };
        cmp("getInt", [&] { return vf::str((d ? r.getInt(p, 8) : r.getInt(p)).get()); }, [&] { return vf::str((d ? under.getInt(p, 8) : under.getInt(p)).get()); });
        cmp("getBool", [&] { return vf::str((d ? r.getBool(p, false) : r.getBool(p)).get()); }, [&] { return vf::str((d ? under.getBool(p, false) : under.getBool(p)).get()); });
        cmp("getString", [&] { return (d ? r.getString(p, S("q")) : r.getString(p)).get(); }, [&] { return (d ? under.getString(p, S("q")) : under.getString(p)).get(); });
        cmp("getDouble", [&] { return vf::str((d ? r.getDouble(p, 8.5) : r.getDouble(p)).get()); }, [&] { return vf::str((d ? under.getDouble(p, 8.5) : under.getDouble(p)).get()); });
      }
    }
    { c.cur("verbose child"); c.eval(); ValueStoreRef ch = r.getChild("c"); c.check(log.size() == 1, "log", "child"); log.clear(); c.check(ch.getInt("i", 3).get() == (mask & 2 ? 6 : 3), "child", "child value"); one("child(c)", "i", mask & 2 ? "6" : "3"); auto cs = r.getChildren(); size_t want = (mask & 1 ? 4 : 0) + (mask & 2 ? 1 : 0); c.check(cs.size() == want, "children", "number of children"); log.clear(); for (auto& x : cs) { c.check(x.getString("").get() == t.getString(x.getKey()), "children", "value of child"); c.check(log.size() == 1, "log", "child access"); log.clear(); } if (mask & 1) { auto hnd = r.getInt("i"); hnd.update(12); c.check(t.getInt("i") == 12 && r.getInt("i").get() == 12, "update", "update"); t.setInt("i", 4); log.clear(); } }
    if (ext) { c.cur("verbose add"); c.eval(); ExtendibleValueStoreRef e(std::static_pointer_cast<ExtendibleValueStore>(evs)); c.check(e.addInt("n/i", 21).get() == 21, "add", "value"); one("addInt", "n/i", "21"); c.check(e.addBool("n/b", true).get(), "add", "value"); one("addBool", "n/b", "1"); c.check(e.addString("n/s", "w").get() == "w", "add", "value"); one("addString", "n/s", "w"); c.check(e.addDouble("n/d", 1.5).get() == 1.5, "add", "value"); one("addDouble", "n/d", "1.5"); c.check(t.getInt("n/i") == 21 && t.getBool("n/b") && t.getString("n/s") == "w" && t.getDouble("n/d") == 1.5, "add", "not stored"); auto ec = e.getExtendibleChild("n"); log.clear(); ec.addInt("z", 5); c.check(t.getInt("n/z") == 5 && log.size() == 1, "add", "through child"); log.clear(); c.check(e.getExtendibleChildren().size() == (size_t)(mask & 1 ? 4 : 0) + (mask & 2 ? 1 : 0) + 1, "children", "extendible children"); c.check(r.isExtendible(), "kind", "extendible"); }
    else c.check(!r.isExtendible(), "kind", "extendible");
  }
}
// Children listed by logging stores: trees may hold several children of the same key (lists in
// files), so the lists of both kinds of logging store, also below each other and below a child,
// have to be those of the store below, and have to write where that would.
VF_PART(V03_listed, 4) {
  const int L = c.thorough ? 4 : 3; std::vector<P> lists = {{}}; for (size_t i = 0; (int)lists[i].size() < L; ++i) for (S k : {"", "k", "l", "k.m"}) { P p = lists[i]; p.push_back(k); lists.push_back(p); }
  for (size_t a = 0; a < lists.size(); ++a) for (int deep = 0; deep < 2; ++deep) for (int twice = 0; twice < 2; ++twice) for (int ext = 0; ext < 2; ++ext) {
    if (a % c.nshards != (size_t)c.shard) continue;
    N n; int v = 1; for (S k : lists[a]) { N x; x.d = vf::str(v++); x.c.push_back({"n", N{vf::str(v++), {}}}); x.c.push_back({"n", N{vf::str(v++), {}}}); n.c.push_back({k, x}); } if (deep) { N m; m.c.push_back({"d", n}); m.c.push_back({"d", N{"7", {}}}); n = m; }
    S nm; for (S k : lists[a]) nm += "'" + k + "' "; c.cur("children %s, below a child %d, twice %d, extendible %d", nm.c_str(), deep, twice, ext); c.eval(a > 4); c.state(nm + vf::str(deep)); c.transition();
    // the listing as text, and the tree after writing through it
    std::function<S(ValueStoreRef)> walk = [&](ValueStoreRef r) { S o; for (auto& x : r.getChildren()) { o += "[" + x.getKey() + "=" + x.getString("", S("-")).get(); o += ":" + x.getString("n", S("-")).get(); o += walk(x); o += "]"; } return o; };
    std::function<S(ExtendibleValueStoreRef)> ewalk = [&](ExtendibleValueStoreRef r) { S o; for (auto& x : r.getExtendibleChildren()) { o += "[" + x.getKey() + "=" + x.getString("", S("-")).get(); o += ewalk(x); x.addInt("new", 5); o += ":" + x.getString("new", S("-")).get() + "]"; } return o; };
    S got[2]; N after[2]; std::vector<S> log;
    for (int verbose = 0; verbose < 2; ++verbose) { try {
      BoostPropertyTree t(conv(n)); ExtendibleValueStoreRef under(t); auto lg = [&](const S& s) { log.push_back(s); };
      if (ext) { ExtendibleValueStoreRef r = under; if (verbose) { r = ExtendibleValueStoreRef(std::static_pointer_cast<ExtendibleValueStore>(std::make_shared<VerboseExtendibleValueStore>(r.getValueStoreSharedPtr(), lg))); if (twice) r = ExtendibleValueStoreRef(std::static_pointer_cast<ExtendibleValueStore>(std::make_shared<VerboseExtendibleValueStore>(r.getValueStoreSharedPtr(), lg))); } got[verbose] = ewalk(r) + walk(r); if (deep) { ExtendibleValueStoreRef ch = r.getExtendibleChild("d"); got[verbose] += " d: " + ewalk(ch) + walk(ch); } }
      else { std::shared_ptr<ValueStore> p = under.getValueStoreSharedPtr(); if (verbose) { p = std::make_shared<VerboseValueStore>(p, lg); if (twice) p = std::make_shared<VerboseValueStore>(p, lg); } ValueStoreRef r(p); got[verbose] = walk(r); if (deep) got[verbose] += " d: " + walk(r.getChild("d")); for (auto& x : r.getChildren()) if (x.hasKey("n")) { x.getInt("n").update(70); got[verbose] += vf::str(x.getInt("n").get()); } }
      after[verbose] = content(t); } catch (const std::exception& e) { got[verbose] += S("exception ") + e.what(); } }
    c.check(got[0] == got[1], "listed", "lists " + got[1] + " instead of " + got[0]); c.check(after[0] == after[1], "written", "the tree is " + dump(after[1]) + " instead of " + dump(after[0]));
    size_t lists_ = 0; for (auto& l : log) lists_ += l.find("hildren()") != S::npos; c.check(lists_ > 0, "log", "no line for listing");
  }
}
