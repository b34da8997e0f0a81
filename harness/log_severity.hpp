// One build of the log macros: the statements of every level and form, compiled with one SMCONSOLE_MIN_SEVERITY and one package name.
#pragma once
#include <string>
#include <vector>
namespace ls {
struct Stmt { const char* level; int severity; const char* form; bool named, once, cond; void (*run)(bool); };
struct Build { int min; std::string package; std::vector<Stmt> stmts; void (*branches)(int, bool); };
inline std::vector<Build>& builds() { static std::vector<Build> b; return b; }
extern int args, conds, other;
inline int arg() { ++args; return 42; }
inline bool cond(bool b) { ++conds; return b; }
struct Reg { Reg(int min, const char* package, const std::vector<Stmt>& s, void (*br)(int, bool)) { Build b; b.min = min; b.package = package; b.stmts = s; b.branches = br; builds().push_back(b); } };
}
