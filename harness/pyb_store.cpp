// Y04: Python archives, property trees and value stores do what the C++ ones do.
#include "pyb.hpp"
#include <algorithm>
#include <deque>
#include <fstream>
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <sm/MatrixArchive.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
using namespace pyb; using namespace sm::value_store; typedef std::string S;
namespace {
// the same text in both languages: values with their kind, errors with their message
S q(bool b) { return b ? "b1" : "b0"; } S q(int i) { return "i" + std::to_string(i); } S q(double d) { char b[64]; snprintf(b, sizeof b, "d%.17g", d); return b; } S q(const S& s) { return "s" + s; }
S q(const MX& m) { S s = "m" + std::to_string(m.rows()) + "x" + std::to_string(m.cols()); for (int i = 0; i < m.size(); ++i) s += " " + q(m.data()[i]); return s; }
S q(const std::vector<S>& v) { S s = "["; for (auto& x : v) s += x + ","; return s + "]"; }
template <class F> S tr(F f) { try { return q(f()); } catch (const std::exception& e) { S m = e.what(); return "E" + m; } }
template <class F> S un(F f) { try { f(); return "ok"; } catch (const std::exception& e) { return S("E") + e.what(); } }
S mdump(const MX& m) { return q(m); }
const char* PRE = R"(
def q(v):
    if isinstance(v, bool): return 'b1' if v else 'b0'
    if isinstance(v, int): return 'i%d' % v
    if isinstance(v, float): return 'd%.17g' % v
    if isinstance(v, str): return 's' + v
    if isinstance(v, Mat): return mdump(v)
    if isinstance(v, list): return '[' + ''.join(x + ',' for x in v) + ']'
    return '?' + type(v).__name__
def tr(f):
    try: return q(f())
    except Exception as e: return 'E' + str(e)
def un(f):
    try:
        f(); return 'ok'
    except Exception as e: return 'E' + str(e)
KEYS = ['a', 'd/y', 'd', 'y', 'b/c']
)";
const char* const KEYS[] = {"a", "d/y", "d", "y", "b/c"};
void begin() { start(); globals()["Mat"] = object(bp::handle<>(bp::borrowed((PyObject*)object(MX()).ptr()->ob_type))); globals()["mdump"] = bp::make_function(&mdump); S d; try { bp::exec(bp::str(PRE), globals()); } catch (const bp::error_already_set&) { d = err(); } if (!d.empty()) throw std::runtime_error(d); }
// runs a snippet inside the interpreter's globals
S def(const S& code) { try { bp::exec(bp::str(code), globals()); return ""; } catch (const bp::error_already_set&) { return err(); } }
S pstr(const S& expr) { R r = ev(expr); S s; if (!get(r, s)) return "!" + show(r); return s; }
S diff(const S& a, const S& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t l = a.rfind('\n', i ? i - 1 : 0); l = l == S::npos ? 0 : l + 1; return "Python: " + a.substr(l, a.find('\n', i) - l) + " C++: " + b.substr(l, b.find('\n', i) - l); }
template <class E> struct Op { S py; std::function<S(E&)> f; };
// words over the operations: after every word both sides show the same
template <class E> void words(vf::Ctx& c, const std::vector<Op<E>>& ops, int D, const std::function<E()>& mk, const S& pymk, const std::function<S(E&)>& snap) {
  std::set<uint64_t> seen; std::deque<std::vector<int>> todo; todo.push_back({});
  while (!todo.empty()) {
    std::vector<int> w = todo.front(); todo.pop_front();
    for (size_t o = 0; o < ops.size(); ++o) {
      if (w.empty() && !c.mine(o)) continue;
      std::vector<int> v = w; v.push_back(o); S n; for (int i : v) n += (n.empty() ? "" : "; ") + ops[i].py; c.cur(n); c.transition();
      E e = mk(); S d = def(pymk); if (!d.empty()) { c.failpl("setup", d); return; }
      S ra, rb; for (int i : v) { rb = ops[i].f(e); ra = pstr("un(lambda: " + ops[i].py + ")"); }
      if (ra != rb && !(ra.substr(0, 1) == "E" && rb.substr(0, 1) == "E")) { c.failpl("operation", "gives " + ra + ", in C++ " + rb); continue; }
      S a = pstr("snap(env)"), b = snap(e); c.trace();
      if (!c.check(a == b, "content", diff(a, b))) continue;
      c.outcome(b); if (seen.insert(vf::hash(b)).second) { c.state(b); if ((int)v.size() < D) todo.push_back(v); }
    }
  }
}
}  // namespace
// --- MatrixArchive
namespace {
struct EA { sm::MatrixArchive a, b; };
S snapA(EA& e, const S& f) {
  S s; for (auto* p : {&e.a, &e.b}) { const sm::MatrixArchive& m = *p; std::vector<S> n; for (auto it = m.begin(); it != m.end(); ++it) n.push_back(it->first); s += q((int)m.size()) + "\n" + q(n) + "\n";
    for (auto it = m.begin(); it != m.end(); ++it) s += it->first + "=" + q(it->second) + "\n"; for (auto& x : m.getStrings()) s += x.first + "=" + q(x.second) + "\n";
    for (const char* k : {"M", "v", "t", "zz"}) { s += tr([&] { MX x; m.getMatrix(k, x); return x; }) + "\n" + tr([&]() -> MX { Eigen::VectorXd x; m.getVector(k, x); return x; }) + "\n" + tr([&] { double d; m.getScalar(k, d); return d; }) + "\n" + tr([&] { return m.getString(k); }) + "\n"; } }
  return s;
}
}  // namespace
VF_PART(Y04_archive, 4) {
  begin(); S f = c.scratch() + "/p.ama", g = c.scratch() + "/c.ama";
  globals()["f"] = f; globals()["MA"] = object(MX((MX(2, 3) << 1, -2, 3.5, 4, 5, 1e300).finished())); globals()["MB"] = object(MX((MX(1, 1) << 0.25).finished())); globals()["V"] = object(MX((MX(3, 1) << 1, 2, -3).finished())); globals()["Z"] = object(MX(0, 2));
  MX MA = (MX(2, 3) << 1, -2, 3.5, 4, 5, 1e300).finished(), MB = (MX(1, 1) << 0.25).finished(), V = (MX(3, 1) << 1, 2, -3).finished(), Z(0, 2);
  S d = def("import os\ndef snap(env):\n    s = ''\n    for m_ in env:\n        s += q(m_.size()) + '\\n' + q(m_.getNameList()) + '\\n'\n        D = m_.asDict()\n        for k in sorted(D): s += k + '=' + q(D[k]) + '\\n'\n        D = m_.stringsAsDict()\n        for k in sorted(D): s += k + '=' + q(D[k]) + '\\n'\n        for k in ['M', 'v', 't', 'zz']:\n            s += tr(lambda: m_.getMatrix(k)) + '\\n' + tr(lambda: m_.getVector(k)) + '\\n' + tr(lambda: m_.getScalar(k)) + '\\n' + tr(lambda: m_.getString(k)) + '\\n'\n    return s\n"); if (!d.empty()) { c.failpl("setup", d); return; }
  std::vector<Op<EA>> ops; S L33(33, 'x');
  auto add = [&](const S& py, std::function<void(EA&)> fn) { ops.push_back({py, [fn](EA& e) { return un([&] { fn(e); }); }}); };
  add("env[0].setMatrix('M', MA)", [=](EA& e) { e.a.setMatrixXd("M", MA); }); add("env[0].setMatrix('t', MB)", [=](EA& e) { e.a.setMatrixXd("t", MB); }); add("env[0].setMatrix('M', Z)", [=](EA& e) { e.a.setMatrixXd("M", Z); }); add("env[0].setVector('v', V)", [=](EA& e) { e.a.setVectorXd("v", V); }); add("env[0].setScalar('v', 2.5)", [=](EA& e) { e.a.setScalar("v", 2.5); }); add("env[0].setScalar('M', -1.0)", [=](EA& e) { e.a.setScalar("M", -1); }); add("env[0].setString('t', 'some text')", [=](EA& e) { e.a.setString("t", "some text"); }); add("env[0].setString('M', '')", [=](EA& e) { e.a.setString("M", ""); });
  add("env[0].setScalar('" + L33 + "', 1.0)", [=](EA& e) { e.a.setScalar(L33, 1); }); add("env[0].setMatrix('', MA)", [=](EA& e) { e.a.setMatrixXd("", MA); });
  add("env[0].clear()", [](EA& e) { e.a.clear(); }); add("env[0].clearOne('M')", [](EA& e) { e.a.clear("M"); }); add("env[0].clearOne('t')", [](EA& e) { e.a.clear("t"); });
  add("env[0].save(f)", [=](EA& e) { e.a.save(g); }); add("env[0].append(f)", [=](EA& e) { e.a.append(g); }); add("env[0].load(f)", [=](EA& e) { e.a.load(g); }); add("env[1].load(f)", [=](EA& e) { e.b.load(g); }); add("env[1].append(f)", [=](EA& e) { e.b.append(g); }); add("env[1].setString('v', 'x')", [](EA& e) { e.b.setString("v", "x"); });
  auto bytes = [](const S& p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return i ? o.str() : S("none"); };
  words<EA>(c, ops, c.thorough ? 5 : 3, [&] { unlink(g.c_str()); return EA(); }, "if os.path.exists(f): os.remove(f)\nenv = [m.MatrixArchive(), m.MatrixArchive()]", [&](EA& e) { S s = snapA(e, g); if (bytes(f) != bytes(g)) s += "the files differ"; return s; });
  EA e; c.cur("constants"); c.eval(true); R x = ev("m.MatrixArchive().isSystemLittleEndian()"), y = ev("m.MatrixArchive().maxNameSize()"); bool b; int n; c.check(get(x, b) && b == e.a.isSystemLittleEndian(), "constants", "isSystemLittleEndian " + show(x)); c.check(get(y, n) && n == (int)e.a.maxNameSize(), "constants", "maxNameSize " + show(y));
  { def("a = m.MatrixArchive()\na.setMatrix('M', MA)\nM = a.getMatrix('M')\nD = a.asDict()\na.setMatrix('M', MB)"); c.cur("a matrix taken out before the archive changes"); c.check(pstr("q(M)") == q(MA) && pstr("q(D['M'])") == q(MA), "content", "changes with the archive"); }
}
// --- property trees
namespace {
struct ET { sm::BoostPropertyTree t, u, w; ET() : w("base") {} };
template <class T> S snapC(const T& t) { S s; for (const char* k : KEYS) { const sm::ConstPropertyTree& c = t; s += tr([&] { return c.doesKeyExist(k); }) + "\n" + tr([&] { return c.getBool(k); }) + "\n" + tr([&] { return c.getBool(k, true); }) + "\n" + tr([&] { return c.getInt(k); }) + "\n" + tr([&] { return c.getInt(k, -3); }) + "\n" + tr([&] { return c.getDouble(k); }) + "\n" + tr([&] { return c.getDouble(k, 0.125); }) + "\n" + tr([&] { return c.getString(k); }) + "\n" + tr([&] { return c.getString(k, S("none")); }) + "\n"; } return s; }
S snapT(ET& e) { const sm::PropertyTree p(e.t, "d"); const sm::ConstPropertyTree cp(e.t, "d"), c0(static_cast<const sm::ConstPropertyTree&>(e.t), ""); return snapC(e.t) + snapC(e.u) + snapC(e.w) + snapC(p) + snapC(e.t.getChild("d")) + snapC(cp) + snapC(c0.getChild("d")) + snapC(cp.getChild("y")) + snapC(e.t.getChild("d").getChild("y")); }
}  // namespace
VF_PART(Y04_tree, 4) {
  begin(); S f = c.scratch() + "/p", g = c.scratch() + "/c"; globals()["f"] = f;
  S d = def(R"(
def snapC(c):
    s = ''
    for k in KEYS:
        s += '\n'.join([tr(lambda: c.doesKeyExist(k)), tr(lambda: c.getBool(k)), tr(lambda: c.getBoolDefault(k, True)), tr(lambda: c.getInt(k)), tr(lambda: c.getIntDefault(k, -3)), tr(lambda: c.getDouble(k)), tr(lambda: c.getDoubleDefault(k, 0.125)), tr(lambda: c.getString(k)), tr(lambda: c.getStringDefault(k, 'none'))]) + '\n'
    return s
def view(f):
    try: return f()
    except Exception as e: return None
def snap(env):
    t, u, w = env
    cp = m.ConstPropertyTree(t, 'd'); c0 = m.ConstPropertyTree(t, '')
    views = [t, u, w, m.PropertyTree(t, 'd'), t.getChild('d'), cp, view(lambda: c0.getChild('d')), view(lambda: cp.getChild('y')), t.getChild('d').getChild('y')]
    return ''.join(snapC(v) if v is not None else 'no child\n' for v in views)
import os
def create_bool(t, k, v): return getattr(t, 'getOrCreateBool', getattr(t, 'getOrCreatetBool', None))(k, v)
)"); if (!d.empty()) { c.failpl("setup", d); return; }
  std::vector<Op<ET>> ops; auto add = [&](const S& py, std::function<void(ET&)> fn) { ops.push_back({py, [fn](ET& e) { return un([&] { fn(e); }); }}); };
  add("env[0].setInt('a', 7)", [](ET& e) { e.t.setInt("a", 7); }); add("env[0].setBool('d/y', True)", [](ET& e) { e.t.setBool("d/y", true); }); add("env[0].setDouble('d/y', 0.1)", [](ET& e) { e.t.setDouble("d/y", 0.1); }); add("env[0].setString('a', 'two words')", [](ET& e) { e.t.setString("a", "two words"); }); add("env[0].setString('b/c', '')", [](ET& e) { e.t.setString("b/c", ""); }); add("m.PropertyTree(env[0], 'd').setInt('y', 3)", [](ET& e) { sm::PropertyTree(e.t, "d").setInt("y", 3); }); add("env[0].getChild('b').setDouble('c', -2.0)", [](ET& e) { e.t.getChild("b").setDouble("c", -2); });
  add("env[0].getOrCreateInt('a', 5)", [](ET& e) { e.t.getInt("a", 5); }); add("env[0].getOrCreateDouble('d/y', 1.5)", [](ET& e) { e.t.getDouble("d/y", 1.5); }); add("env[0].getOrCreateString('b/c', 'new')", [](ET& e) { e.t.getString("b/c", S("new")); }); add("create_bool(env[0], 'y', False)", [](ET& e) { e.t.getBool("y", false); });
  add("env[1].setInt('a', 11)", [](ET& e) { e.u.setInt("a", 11); }); add("env[1].setString('d/y', '')", [](ET& e) { e.u.setString("d/y", ""); }); add("env[1].setString('b/c', 'u')", [](ET& e) { e.u.setString("b/c", "u"); });
  for (int k = 0; k < 4; ++k) { bool a = k & 1, b = k & 2; add(S("env[0].update(env[1], ") + (a ? "True" : "False") + ", " + (b ? "True" : "False") + ")", [a, b](ET& e) { e.t.update(e.u, a, b); }); if (!b) add(S("env[0].updateWithEmptyUpdates(env[1], ") + (a ? "True" : "False") + ")", [a](ET& e) { e.t.update(e.u, a); }); } add("env[0].updateOrCreate(env[1])", [](ET& e) { e.t.update(e.u); });
  add("env[0].saveXml(f + '.xml')", [g](ET& e) { e.t.saveXml(g + ".xml"); }); add("env[1].loadXml(f + '.xml')", [g](ET& e) { e.u.loadXml(g + ".xml"); }); add("env[0].saveInfo(f + '.info')", [g](ET& e) { e.t.saveInfo(g + ".info"); }); add("env[1].loadInfo(f + '.info')", [g](ET& e) { e.u.loadInfo(g + ".info"); }); add("env[1].saveIni(f + '.ini')", [g](ET& e) { e.u.saveIni(g + ".ini"); }); add("env[0].loadIni(f + '.ini')", [g](ET& e) { e.t.loadIni(g + ".ini"); });
  add("env[2].setInt('a', 1)", [](ET& e) { e.w.setInt("a", 1); }); add("env[2].setString('/d/y', 'abs')", [](ET& e) { e.w.setString("/d/y", "abs"); });
  add("env.__setitem__(1, m.BoostPropertyTreeLoader().readFilesAndMergeIntoPropertyTree(f + '.xml'))", [g](ET& e) { e.u = sm::BoostPropertyTreeLoader().readFilesAndMergeIntoPropertyTree(g + ".xml"); }); add("env.__setitem__(1, m.BoostPropertyTreeLoader().readFilesAndMergeIntoPropertyTree(f + '.xml,' + f + '.info'))", [g](ET& e) { e.u = sm::BoostPropertyTreeLoader().readFilesAndMergeIntoPropertyTree(g + ".xml," + g + ".info"); });
  words<ET>(c, ops, c.thorough ? 4 : 3, [&] { for (const char* x : {".xml", ".info", ".ini"}) unlink((g + x).c_str()); return ET(); }, "for x in ['.xml', '.info', '.ini']:\n    if os.path.exists(f + x): os.remove(f + x)\nenv = [m.BoostPropertyTree(), m.BoostPropertyTree(), m.BoostPropertyTree('base')]", snapT);
  // the values of the getOrCreate operations
  def("t = m.BoostPropertyTree()"); c.cur("getOrCreate"); c.eval(true); S v = pstr("'|'.join(tr(x) for x in [lambda: t.getOrCreateInt('a', 5), lambda: t.getOrCreateInt('a', 6), lambda: t.getOrCreateString('b/c', 'x'), lambda: t.getOrCreateString('b/c', 'y'), lambda: t.getOrCreateDouble('d/y', 0.5), lambda: t.getOrCreateDouble('d/y', 9.0), lambda: create_bool(t, 'y', True), lambda: create_bool(t, 'y', False)])"); c.check(v == "i5|i5|sx|sx|d0.5|d0.5|b1|b1", "getOrCreate", v);
}
// --- value stores
namespace {
struct EV { sm::BoostPropertyTree A, B; std::vector<ValueStoreRef> r; std::vector<ExtendibleValueStoreRef> x; };
S names(std::vector<S> n) { std::sort(n.begin(), n.end()); return q(n); }
EV mkV() {
  EV e; e.A.setInt("a", 1); e.A.setString("d/y", "text"); e.B.setDouble("b/c", 2.5); e.B.setBool("d", true);
  ExtendibleValueStoreRef eA(e.A), eB(e.B), eN; e.x = {eA, eB, eN, eA.getExtendibleChild("d"), ExtendibleValueStoreRef::fromString("a 3, d/y 4")};
  auto L = std::make_shared<LayeredValueStore>(); ValueStoreRef vA(eA), vB(eB); L->add(vA); L->add(vB); ValueStoreRef l(L); auto L1 = std::make_shared<LayeredValueStore>(l); ValueStoreRef vN(e.x[2]); L1->add(vN);
  e.r = {eA, eB, eN, e.x[3], e.x[4], ValueStoreRef(sm::PropertyTree(e.A, "d")), l, ValueStoreRef(L1), ValueStoreRef(std::make_shared<PrefixedValueStore>(eA, PrefixedValueStore::PrefixMode::ADD, "d")), ValueStoreRef(std::make_shared<PrefixedValueStore>(l, PrefixedValueStore::PrefixMode::REMOVE, "d")), l.getChild("d"), eA.getChild("b"), KeyValueStorePair("key", l), ValueStoreRef::fromString("a 3.5, b/c word"), ValueStoreRef()};
  return e;
}
const char* PYV = R"(
def mkV():
    A = m.BoostPropertyTree(); B = m.BoostPropertyTree()
    A.setInt('a', 1); A.setString('d/y', 'text'); B.setDouble('b/c', 2.5); B.setBool('d', True)
    eA = m.ExtendibleValueStoreRef(A); eB = m.ExtendibleValueStoreRef(B); eN = m.ExtendibleValueStoreRef()
    x = [eA, eB, eN, eA.getExtendibleChild('d'), m.ExtendibleValueStoreRef.fromString('a 3, d/y 4')]
    L = m.LayeredValueStore(); L.add(m.ValueStoreRef(eA)); L.add(eB); l = m.ValueStoreRef(L); del L
    L1 = m.LayeredValueStore(l); L1.add(x[2])
    r = x + [m.ValueStoreRef(m.PropertyTree(A, 'd')), l, m.ValueStoreRef(L1), m.ValueStoreRef(m.PrefixedValueStore(eA, m.PrefixMode.ADD, 'd')), m.ValueStoreRef(m.PrefixedValueStore(l, m.PrefixMode.REMOVE, 'd')), l.getChild('d'), eA.getChild('b'), m.KeyValueStorePair('key', l), m.ValueStoreRef.fromString('a 3.5, b/c word'), m.ValueStoreRef()]
    del L1
    gc.collect()
    return (r, x)
def snapC(c):
    s = ''
    for k in KEYS:
        s += '\n'.join([tr(lambda: c.doesKeyExist(k)), tr(lambda: c.getBool(k)), tr(lambda: c.getInt(k)), tr(lambda: c.getDouble(k)), tr(lambda: c.getString(k)), tr(lambda: c.getStringDefault(k, 'none'))]) + '\n'
    return s
def snap(env):
    r, x = env
    s = ''
    for i, c in enumerate(r):
        s += 'store %d\n' % i
        for k in KEYS:
            s += '\n'.join([k, tr(lambda: c.hasKey(k)), tr(lambda: c.getBool(k)), tr(lambda: c.getBool(k, True)), tr(lambda: c.getInt(k)), tr(lambda: c.getInt(k, -3)), tr(lambda: c.getDouble(k)), tr(lambda: c.getDouble(k, 0.125)), tr(lambda: c.getString(k)), tr(lambda: c.getString(k, 'none'))]) + '\n'
        s += tr(lambda: sorted(p.getKey() for p in c.getChildren())) + '\n'
        s += tr(lambda: sorted(p.getKey() + '.' + tr(lambda: p.getString('y', 'no')) for p in c.getChildren())) + '\n'
        s += snapC(c.asPropertyTree())
    for e in x:
        s += tr(lambda: sorted(p.getKey() for p in e.getExtendibleChildren())) + '\n'
    s += q(r[12].getKey()) + '\n'
    return s
import os, gc
)";
S snapV(EV& e) {
  S s; int i = 0;
  for (auto& c : e.r) { s += "store " + std::to_string(i++) + "\n";
    for (const char* k : KEYS) s += S(k) + "\n" + tr([&] { return c.hasKey(k); }) + "\n" + tr([&] { return c.getBool(k).get(); }) + "\n" + tr([&] { return c.getBool(k, true).get(); }) + "\n" + tr([&] { return c.getInt(k).get(); }) + "\n" + tr([&] { return c.getInt(k, -3).get(); }) + "\n" + tr([&] { return c.getDouble(k).get(); }) + "\n" + tr([&] { return c.getDouble(k, 0.125).get(); }) + "\n" + tr([&] { return c.getString(k).get(); }) + "\n" + tr([&] { return c.getString(k, S("none")).get(); }) + "\n";
    s += tr([&] { std::vector<S> n; for (auto& p : c.getChildren()) n.push_back(p.getKey()); std::sort(n.begin(), n.end()); return n; }) + "\n"; s += tr([&] { std::vector<S> n; for (auto& p : c.getChildren()) n.push_back(p.getKey() + "." + tr([&] { return p.getString("y", S("no")).get(); })); std::sort(n.begin(), n.end()); return n; }) + "\n";
    auto t = c.asPropertyTree(); for (const char* k : KEYS) s += tr([&] { return t.doesKeyExist(k); }) + "\n" + tr([&] { return t.getBool(k); }) + "\n" + tr([&] { return t.getInt(k); }) + "\n" + tr([&] { return t.getDouble(k); }) + "\n" + tr([&] { return t.getString(k); }) + "\n" + tr([&] { return t.getString(k, S("none")); }) + "\n"; }
  for (auto& x : e.x) s += tr([&] { std::vector<S> n; for (auto& p : x.getExtendibleChildren()) n.push_back(p.getKey()); std::sort(n.begin(), n.end()); return n; }) + "\n";
  return s + "skey\n";
}
}  // namespace
VF_PART(Y04_store, 8) {
  begin(); S d = def(PYV); if (!d.empty()) { c.failpl("setup", d); return; } S f = c.scratch() + "/p.info", g = c.scratch() + "/c.info"; globals()["f"] = f; std::vector<Op<EV>> ops; auto add = [&](const S& py, std::function<void(EV&)> fn) { ops.push_back({py, [fn](EV& e) { return un([&] { fn(e); }); }}); };
  for (int i = 0; i < 5; ++i) { S x = "env[1][" + std::to_string(i) + "]"; add(x + ".addInt('a', 5)", [i](EV& e) { e.x[i].addInt("a", 5); }); add(x + ".addString('d/y', 't')", [i](EV& e) { e.x[i].addString("d/y", "t"); }); if (i != 1) add(x + ".addDouble('y', 0.5)", [i](EV& e) { e.x[i].addDouble("y", 0.5); }); if (i != 3) add(x + ".addBool('b/c', False)", [i](EV& e) { e.x[i].addBool("b/c", false); }); if (!i) add(x + ".getExtendibleChild('d').addInt('y', 9)", [i](EV& e) { e.x[i].getExtendibleChild("d").addInt("y", 9); }); if (!i) add("[p.addInt('y', 8) for p in " + x + ".getExtendibleChildren()]", [i](EV& e) { for (auto& p : e.x[i].getExtendibleChildren()) p.addInt("y", 8); }); }
  for (int i = 0; i < 15; ++i) { S x = "env[0][" + std::to_string(i) + "]"; add(x + ".setInt('a', 7)", [i](EV& e) { e.r[i].getInt("a").update(7); }); add(x + ".setString('d/y', 'u')", [i](EV& e) { e.r[i].getString("d/y").update("u"); }); if (i % 2) add(x + ".setDouble('b/c', 1.25)", [i](EV& e) { e.r[i].getDouble("b/c").update(1.25); }); else add(x + ".setBool('d', False)", [i](EV& e) { e.r[i].getBool("d").update(false); }); if (i == 8 || i == 10 || i == 6) add(x + ".setString('y', 'w')", [i](EV& e) { e.r[i].getString("y").update("w"); }); }
  for (int i : {0, 1, 6, 13}) add("env[0][" + std::to_string(i) + "].saveTo(f)", [i, g](EV& e) { e.r[i].saveTo(g); }); add("env[0].__setitem__(4, m.ExtendibleValueStoreRef.fromFile(f))", [g](EV& e) { e.r[4] = ExtendibleValueStoreRef::fromFile(g); }); add("env[0].__setitem__(14, m.ValueStoreRef.fromFile(f))", [g](EV& e) { e.r[14] = ValueStoreRef::fromFile(g); });
  words<EV>(c, ops, 2, [&] { unlink(g.c_str()); return mkV(); }, "if os.path.exists(f): os.remove(f)\nenv = mkV()", [](EV& e) { return snapV(e); });
  if (c.thorough) { std::vector<Op<EV>> part; for (auto& o : ops) { bool in = o.py.find("[1]") == S::npos || o.py.find("[1][0]") != S::npos; for (int i : {1, 2, 3, 4, 5, 9, 11, 12, 13, 14}) if (o.py.find("env[0][" + std::to_string(i) + "]") != S::npos) in = false; if (in) part.push_back(o); } words<EV>(c, part, 3, [&] { unlink(g.c_str()); return mkV(); }, "if os.path.exists(f): os.remove(f)\nenv = mkV()", [](EV& e) { return snapV(e); }); }
  // results of the operations
  def("env = mkV()"); c.cur("values of the additions"); c.eval(true); S v = pstr("'|'.join(tr(x) for x in [lambda: env[1][0].addInt('q', 4), lambda: env[1][0].addBool('q', True), lambda: env[1][0].addDouble('q', 4.5), lambda: env[1][0].addString('q', 'z')])"); c.check(v == "i4|b1|d4.5|sz", "operation", v);
  c.cur("the vectors of children"); def("env = mkV()\nC = env[0][6].getChildren(); E = env[1][0].getExtendibleChildren()"); v = pstr("'%d %d ' % (len(C), len(E)) + ','.join(sorted(C[i].getKey() for i in range(len(C)))) + ' ' + ','.join(p.getKey() for p in E) + ' ' + type(C[0]).__name__ + ' ' + type(E[0]).__name__"); c.check(v == "3 2 a,b,d a,d KeyValueStorePair ExtendibleKeyValueStorePair", "children", v);
  // a reference keeps what it refers to alive
  c.cur("a reference to stores no other object holds"); def("def chain():\n    r = m.ValueStoreRef.fromString('a 5, d/y 6')\n    for k in range(4):\n        L = m.LayeredValueStore(); L.add(r); p = m.PrefixedValueStore(m.ValueStoreRef(L), m.PrefixMode.ADD, 'd')\n        Q = m.LayeredValueStore(m.ValueStoreRef(p)); Q.add(r); r = m.ValueStoreRef(Q)\n    return r\nr = chain(); gc.collect(); s = [chain() for i in range(20)]; del s; gc.collect()"); v = pstr("tr(lambda: r.getInt('a')) + tr(lambda: r.getInt('y')) + tr(lambda: r.getChild('d').getInt('y')) + tr(lambda: r.asPropertyTree().getInt('d/y'))"); c.check(v == "i5i6i6i6", "lifetime", v);
}
