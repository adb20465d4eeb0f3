// Result of one analysis, printed as JSON for the driver.
#pragma once
#include "ir.h"
#include "llvm/Support/JSON.h"
namespace sv {
struct Report {
  struct Viol {
    std::string key; // stable identity: no line numbers
    std::string loc; // file:line (function)
    std::string msg;
    std::vector<std::string> path;
  };
  std::vector<Viol> viols;
  std::map<std::string, long> stats;
  std::map<std::string, std::vector<std::string>> lists; // what was analysed
  std::vector<std::string> broken;                       // reasons why the run decides nothing
  void add(const std::string &key, const std::string &loc, const std::string &msg, std::vector<std::string> path = {}) {
    for (auto &v : viols)
      if (v.key == key && v.loc == loc) return;
    viols.push_back({key, loc, msg, std::move(path)});
  }
  void note(const std::string &list, const std::string &s, size_t cap = 400) {
    auto &l = lists[list];
    if (l.size() < cap && std::find(l.begin(), l.end(), s) == l.end()) l.push_back(s);
  }
};
struct Ctx {
  Program &P;
  std::set<std::string> roots; // public API names
  std::string config;
  std::vector<std::string> args;
};
using Analysis = void (*)(Ctx &, Report &);
struct Reg {
  const char *name;
  Analysis fn;
  NormOpts opts;
  Reg(const char *n, Analysis f, NormOpts o);
};
std::map<std::string, Reg *> &registry();
} // namespace sv
namespace sv {
std::string returnTypedef(const Function *F);
std::set<const Function *> fallible(Program &P);
}
