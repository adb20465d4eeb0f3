#include "report.h"
#include <fstream>
#include <unistd.h>
using namespace sv;
std::map<std::string, Reg *> &sv::registry() {
  static std::map<std::string, Reg *> r;
  return r;
}
Reg::Reg(const char *n, Analysis f, NormOpts o) : name(n), fn(f), opts(o) { registry()[n] = this; }

static std::set<std::string> readList(const std::string &f) {
  std::set<std::string> r;
  std::ifstream i(f);
  std::string l;
  while (i >> l) r.insert(l);
  return r;
}

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  std::string cmd = argv[1];
  auto it = registry().find(cmd);
  if (it == registry().end()) {
    errs() << "unknown analysis " << cmd << "\n";
    return 2;
  }
  std::vector<std::string> files;
  Report R;
  std::set<std::string> roots;
  std::vector<std::string> extra;
  std::string config;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-roots") roots = readList(argv[++i]);
    else if (a == "-config") config = argv[++i];
    else if (a == "-x") extra.push_back(argv[++i]);
    else files.push_back(a);
  }
  auto P = loadProgram(files, it->second->opts);
  P->config = config;
  if (getenv("SV_IR")) if (auto *F = P->M->getFunction(getenv("SV_IR"))) F->print(errs());
  Ctx C{*P, roots, config, extra};
  R.stats["translation_units"] = files.size();
  unsigned fns = 0;
  for (Function &F : *P->M) fns += !F.isDeclaration();
  R.stats["functions_after_inlining"] = fns;
  it->second->fn(C, R);
  json::Array vs;
  for (auto &v : R.viols) {
    json::Array p;
    for (auto &s : v.path) p.push_back(s);
    vs.push_back(json::Object{{"key", v.key}, {"loc", v.loc}, {"msg", v.msg}, {"path", std::move(p)}});
  }
  json::Object st, li;
  for (auto &s : R.stats) st[s.first] = s.second;
  for (auto &l : R.lists) {
    json::Array a;
    for (auto &s : l.second) a.push_back(s);
    li[l.first] = std::move(a);
  }
  json::Array br;
  for (auto &b : R.broken) br.push_back(b);
  outs() << json::Value(json::Object{{"violations", std::move(vs)}, {"stats", std::move(st)}, {"lists", std::move(li)}, {"broken", std::move(br)}}) << "\n";
  outs().flush();
  _exit(0); // skip the (slow) teardown
}
