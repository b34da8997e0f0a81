// The bindings of sm_python in an embedded interpreter: helpers.
#pragma once
#include <numpy_eigen/boost_python_headers.hpp>
#include <Eigen/Dense>
#include "vf.hpp"
extern "C" PyObject* PyInit_libsm_python();
namespace pyb {
namespace bp = boost::python;
using bp::object;
typedef Eigen::MatrixXd MX;
// Matrices travel as objects of the class Mat; a matrix of fixed size takes one of its size.
template <class M> struct Conv {
  static PyObject* convert(const M& m) { return bp::incref(object(MX(m)).ptr()); }
  static void* ok(PyObject* p) { void* v = bp::converter::get_lvalue_from_python(p, bp::converter::registered<MX>::converters); if (!v) return 0; const MX& m = *(MX*)v; if (M::RowsAtCompileTime != Eigen::Dynamic && m.rows() != M::RowsAtCompileTime) return 0; if (M::ColsAtCompileTime != Eigen::Dynamic && m.cols() != M::ColsAtCompileTime) return 0; return v; }
  static void construct(PyObject* p, bp::converter::rvalue_from_python_stage1_data* d) { const MX& m = *(MX*)d->convertible; void* st = ((bp::converter::rvalue_from_python_storage<M>*)d)->storage.bytes; new (st) M(m); d->convertible = st; }
  static void reg() { bp::to_python_converter<M, Conv<M>>(); bp::converter::registry::push_back(&ok, &construct, bp::type_id<M>()); }
};
template <int R, int C> void reg() { Conv<Eigen::Matrix<double, R, C>>::reg(); }
inline object& globals() { static object* g = new object(); return *g; }
inline std::string err() {
  PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); std::string s = t ? ((PyTypeObject*)t)->tp_name : "?"; if (v) { PyObject* r = PyObject_Str(v); if (r) { s += std::string(": ") + PyUnicode_AsUTF8(r); Py_DECREF(r); } } Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); size_t n = s.rfind('.', s.find(':')); return n == std::string::npos ? s : s.substr(n + 1);
}
// Result of a Python expression: a value or the error it raises
struct R { object v; std::string e; bool ok() const { return e.empty(); } };
struct Vars { bp::dict d; template <class T> Vars& operator()(const char* n, const T& x) { d[n] = x; return *this; } };
inline Vars vars() { return Vars(); }
inline R ev(const std::string& code, Vars v = Vars()) { R r; try { bp::dict g = bp::extract<bp::dict>(globals())().copy(); g.update(v.d); r.v = bp::eval(bp::str(code), g); } catch (const bp::error_already_set&) { r.e = err(); if (r.e.empty()) r.e = "?"; } return r; }
inline R ex(const std::string& code, Vars v = Vars()) { R r; try { bp::dict g = bp::extract<bp::dict>(globals())().copy(); g.update(v.d); bp::exec(bp::str(code), g); } catch (const bp::error_already_set&) { r.e = err(); } return r; }
template <class T> bool get(const R& r, T& out) { if (!r.ok()) return false; bp::extract<T> x(r.v); if (!x.check()) return false; out = x(); return true; }
inline std::string tname(const object& o) { return o.ptr()->ob_type->tp_name; }
inline std::string show(const R& r) { if (!r.ok()) return "raises " + r.e; bp::extract<MX&> m(r.v); if (m.check()) { std::ostringstream o; o.precision(17); o << m().rows() << "x" << m().cols() << " ["; for (int i = 0; i < m().size(); ++i) o << (i ? " " : "") << m().data()[i]; return o.str() + "]"; } PyObject* p = PyObject_Repr(r.v.ptr()); std::string s = p ? PyUnicode_AsUTF8(p) : "?"; Py_XDECREF(p); return s; }
inline bool bits(double a, double b) { return a == b || (a != a && b != b); }
inline bool eqm(const MX& a, const MX& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; double n = 1; for (int i = 0; i < b.size(); ++i) if (std::isfinite(b.data()[i])) n = std::max(n, std::fabs(b.data()[i])); for (int i = 0; i < a.size(); ++i) if (!(bits(a.data()[i], b.data()[i]) || std::fabs(a.data()[i] - b.data()[i]) <= 1e-11 * n)) return false; return true; }
inline std::string sm_(const MX& m) { std::ostringstream o; o.precision(17); o << m.rows() << "x" << m.cols() << " ["; for (int i = 0; i < m.size(); ++i) o << (i ? " " : "") << m.data()[i]; return o.str() + "]"; }
// starts the interpreter and imports the module under the name "m"
inline void start() {
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  setenv("PYTHONMALLOC", "malloc", 1);
  PyImport_AppendInittab("libsm_python", &PyInit_libsm_python);
  Py_InitializeEx(0);
  bp::class_<MX>("Mat");
  reg<2, 1>(); reg<3, 1>(); reg<4, 1>(); reg<5, 1>(); reg<6, 1>(); reg<2, 2>(); reg<3, 3>(); reg<4, 4>(); reg<5, 5>(); reg<6, 6>(); reg<3, 4>(); reg<4, 3>(); reg<4, 6>(); reg<3, 6>(); reg<-1, 1>();
  globals() = bp::import("__main__").attr("__dict__");
  try { bp::exec("import sys; sys.dont_write_bytecode = True\nimport libsm_python as m, pickle, copy", globals()); } catch (const bp::error_already_set&) { std::string e = err(); throw std::runtime_error("the module cannot be imported: " + e); }
}
}  // namespace pyb
