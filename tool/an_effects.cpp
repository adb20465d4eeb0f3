// Call-graph and effect rules.
#include "cg.h"
#include "report.h"
using namespace sv;

static void anDump(Ctx &C, Report &R) {
  CG g(C.P);
  for (auto &a : C.args) {
    auto *F = C.P.M->getFunction(a);
    if (!F) continue;
    auto r = g.reach({F});
    for (auto &kv : r) {
      R.note(a + (kv.first->isDeclaration() ? ":extern" : ":fn"), kv.first->getName().str());
      for (auto &u : g.unknown[kv.first]) R.note(a + ":unknown", u.first + " at " + loc(u.second));
    }
  }
}
static Reg d1("dump-reach", anDump, [] { NormOpts o; o.inlineStatics = false; o.gvn = false; return o; }());

// Which API calls may allocate, free, open or close; everything else uses only pure library functions.
static void anResources(Ctx &C, Report &R) {
  enum { Alloc = 1, Free = 2, Open = 4, Close = 8 };
  static const std::map<std::string, int> allowed = {
      {"EAS_Init", Alloc | Free | Close}, {"EAS_Shutdown", Free | Close}, {"EAS_OpenFile", Alloc | Free | Open | Close},
      {"EAS_MMAPIToneControl", Alloc | Free | Open | Close}, {"EAS_Prepare", Alloc | Free | Open | Close}, {"EAS_CloseFile", Free | Close},
      {"EAS_OpenMIDIStream", Alloc | Free}, {"EAS_CloseMIDIStream", Free}, {"EAS_LoadDLSCollection", Alloc | Free | Open | Close}};
  static const std::map<std::string, int> kinds = {
      {"malloc", Alloc}, {"calloc", Alloc}, {"realloc", Alloc | Free}, {"reallocarray", Alloc | Free}, {"strdup", Alloc}, {"strndup", Alloc}, {"aligned_alloc", Alloc}, {"posix_memalign", Alloc}, {"memalign", Alloc}, {"valloc", Alloc}, {"asprintf", Alloc}, {"getline", Alloc},
      {"free", Free}, {"EAS_HWMalloc", Alloc}, {"EAS_HWFree", Free}, {"EAS_HWOpenFile", Open}, {"EAS_HWDupHandle", Open}, {"EAS_HWCloseFile", Close}};
  // library functions without effect beyond their arguments, and the debug report's output
  static const std::set<std::string> pure = {"exit", "fflush", "fputs", "puts", "putchar", "fprintf", "vfprintf", "printf", "vprintf", "snprintf", "vsnprintf", "sprintf", "abs", "labs", "llabs", "qsort", "bsearch", "fabs", "sin", "cos", "tan", "exp", "exp2", "log", "log2", "log10", "pow", "sqrt", "floor", "ceil", "round", "lround", "__assert_fail", "abort", "bcmp", "bcopy", "bzero", "atoi", "atol", "strtol", "strtoul", "isdigit", "isalpha", "isspace", "isxdigit", "toupper", "tolower", "__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc", "__errno_location", "pthread_getspecific"};
  // not the library's business on a rendering thread
  auto isPure = [&](StringRef n) { return n.starts_with("llvm.") || n.starts_with("mem") || n.starts_with("str") || n.starts_with("__mem") || n.starts_with("__str") || pure.count(n.str()) || (n.ends_with("f") && pure.count(n.drop_back().str())); };
  CG g(C.P);
  long apis = 0, fns = 0;
  auto name = [](int k) { return std::string(k & Alloc ? "allocates memory" : k & Free ? "frees memory" : k & Open ? "opens a file" : "closes a file"); };
  for (auto &a : C.roots) {
    auto *F = C.P.M->getFunction(a);
    if (!F || F->isDeclaration()) continue;
    apis++;
    int ok = allowed.count(a) ? allowed.at(a) : 0;
    auto r = g.reachConst({F});
    fns += r.size();
    R.note("entry_points", a + ": " + std::to_string(r.size()) + " functions" + (ok ? " (resource call)" : ""));
    for (auto &kv : r) {
      std::string n = kv.first->getName().str();
      auto it = kinds.find(n);
      if (it != kinds.end()) {
        for (int b : {Alloc, Free, Open, Close})
          if ((it->second & b) && !(ok & b)) {
            auto p = pathTo(r, kv.first);
            R.add(a + ":" + name(b), kv.second.second ? loc(kv.second.second) : locF(kv.first), a + " " + name(b) + " through " + n, p);
          }
      } else if (kv.first->isDeclaration() && !isPure(kv.first->getName())) {
        if (ok) continue;
        R.add(a + ":" + n, kv.second.second ? loc(kv.second.second) : locF(kv.first), a + " calls " + n + ", which may block or use system resources", pathTo(r, kv.first));
      }
      for (auto &u : g.unknown[kv.first]) R.note("host_callbacks", u.first + " in " + n);
    }
  }
  R.stats["entry_points"] = apis;
  R.stats["functions_in_closures"] = fns;
}
static Reg re1("resources", anResources, [] { NormOpts o; o.inlineStatics = false; o.gvn = false; return o; }());

// No recursion, no run-time sized stack objects; stack use of every entry point is bounded.
static void anStack(Ctx &C, Report &R) {
  CG g(C.P);
  const int64_t budget = 8 * 1024; // per entry point, locals of all frames
  std::map<const Function *, int64_t> frame, deep;
  long nfn = 0, nobj = 0;
  std::vector<const Function *> roots;
  for (auto &a : C.roots)
    if (auto *F = C.P.M->getFunction(a); F && !F->isDeclaration()) roots.push_back(F);
  auto r = g.reach(roots);
  for (auto &kv : r) {
    auto *F = kv.first;
    if (F->isDeclaration()) continue;
    nfn++;
    int64_t sz = 0;
    for (auto &I : instructions(*F))
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        nobj++;
        auto s = A->getAllocationSize(C.P.DL());
        if (!s || s->isScalable()) { R.add(F->getName().str() + ":vla", loc(&I), F->getName().str() + " places an object of run-time size on the stack", pathTo(r, F)); continue; }
        sz += (int64_t)s->getFixedValue();
      } else if (auto *Cl = dyn_cast<CallBase>(&I); Cl && calleeName(Cl) == "alloca")
        R.add(F->getName().str() + ":alloca", loc(&I), F->getName().str() + " allocates stack memory at run time", pathTo(r, F));
    frame[F] = sz;
  }
  // cycles: depth-first search with an explicit stack of the current path
  std::map<const Function *, int> col;
  std::vector<std::pair<const Function *, const CallBase *>> path;
  std::function<int64_t(const Function *)> dfs = [&](const Function *F) -> int64_t {
    if (F->isDeclaration()) return 0;
    col[F] = 1;
    int64_t m = 0;
    for (auto &e : g.out[F]) {
      if (e.first->isDeclaration()) continue;
      if (col[e.first] == 1) {
        std::vector<std::string> p;
        bool on = e.first == F;
        for (auto &x : path) {
          if (x.first == e.first) on = true;
          if (on && x.second) p.push_back(loc(x.second) + " calls " + x.first->getName().str());
        }
        p.push_back(loc(e.second) + " calls " + e.first->getName().str());
        R.add("recursion:" + e.first->getName().str() + ":" + F->getName().str(), loc(e.second), "recursion: " + F->getName().str() + " calls back into " + e.first->getName().str(), p);
        continue;
      }
      if (!col[e.first]) {
        path.push_back({e.first, e.second});
        deep[e.first] = dfs(e.first);
        path.pop_back();
      }
      m = std::max(m, deep[e.first]);
    }
    col[F] = 2;
    return m + frame[F];
  };
  int64_t worst = 0;
  for (auto *F : roots) {
    if (!col[F]) { path.assign(1, {F, nullptr}); deep[F] = dfs(F); }
    worst = std::max(worst, deep[F]);
    R.note("entry_points", F->getName().str() + ": " + std::to_string(deep[F]) + " bytes of locals on the deepest path");
    if (deep[F] > budget) R.add("depth:" + F->getName().str(), locF(F), F->getName().str() + " may need " + std::to_string(deep[F]) + " bytes of stack for locals, budget " + std::to_string(budget));
  }
  R.stats["entry_points"] = roots.size();
  R.stats["functions"] = nfn;
  R.stats["stack_objects"] = nobj;
  R.stats["worst_bytes"] = worst;
}
static Reg st1("stack", anStack, [] { NormOpts o; o.inlineStatics = false; o.gvn = false; return o; }());
