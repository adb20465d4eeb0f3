// Allocation failure: the null result is never dereferenced and an error is returned.
#include "nullarg.h"
#include "report.h"
using namespace sv;
using CR = ConstantRange;

static void anAlloc(Ctx &C, Report &R) {
  ModRef MR(C.P);
  NullArg NA(C.P, MR);
  std::set<std::string> allocs = {"EAS_HWMalloc", "malloc", "calloc", "realloc", "aligned_alloc", "strdup"};
  // wrappers: functions returning an allocator's result are allocators themselves
  bool ch = true;
  auto isAlloc = [&](const CallBase *Cl) {
    for (auto *G : callees(C.P, Cl)) if (allocs.count(G->getName().str())) return true;
    return allocs.count(calleeName(Cl)) > 0;
  };
  std::set<std::string> base = allocs;
  while (ch) {
    ch = false;
    for (Function &F : *C.P.M) {
      if (F.isDeclaration() || allocs.count(F.getName().str()) || !F.getReturnType()->isPointerTy()) continue;
      for (auto &B : F)
        if (auto *Rt = dyn_cast<ReturnInst>(B.getTerminator())) {
          std::set<const Value *> seen;
          std::function<bool(const Value *)> go = [&](const Value *v) -> bool {
            v = decompose(v).root;
            if (!seen.insert(v).second) return false;
            if (auto *Ph = dyn_cast<PHINode>(v)) { for (auto &o : Ph->incoming_values()) if (go(o)) return true; return false; }
            if (auto *S = dyn_cast<SelectInst>(v)) return go(S->getTrueValue()) || go(S->getFalseValue());
            auto *Cl = dyn_cast<CallBase>(v);
            return Cl && !isField0(Cl) && isAlloc(Cl);
          };
          if (go(Rt->getReturnValue())) allocs.insert(F.getName().str()), ch = true;
        }
    }
  }
  long sites = 0, bad = 0;
  for (Function &F : *C.P.M) {
    if (F.isDeclaration()) continue;
    if (base.count(F.getName().str())) continue; // the wrapper of the host allocator
    for (Instruction &I : instructions(F)) {
      auto *Cl = dyn_cast<CallBase>(&I);
      if (!Cl || isDbg(Cl) || isField0(Cl) || !Cl->getType()->isPointerTy() || !isAlloc(Cl)) continue;
      sites++;
      R.note("allocations", loc(Cl));
      std::string what = srcFunc(Cl) + ":" + F.getName().str();
      Walk W(C.P, F, MR);
      bool d = false, r = false;
      bool res = returnTypedef(&F) == "EAS_RESULT", ptr = allocs.count(F.getName().str());
      W.inst = [&](const Instruction *J, WState &S, std::vector<WState> &) {
        if (J == Cl) return false; // another round of a loop: judged on its own
        if (!d) {
          std::string x = NA.derefs(W, J, S, 0);
          if (!x.empty()) {
            d = true;
            R.add(what + ":deref", loc(Cl), "memory allocated here is " + x + " without a test for failure", Walk::path(S));
            return false;
          }
        }
        return true;
      };
      W.ret = [&](const ReturnInst *RI, WState &S) {
        if (r || ptr) return;
        if (res && W.nonZero(S, RI->getReturnValue())) return;
        r = true;
        auto p = Walk::path(S);
        p.push_back("returns at " + loc(RI));
        R.add(what + ":unreported", loc(Cl), "a failed allocation is not reported as an error by " + F.getName().str(), p);
      };
      WState S;
      S.fact.insert_or_assign(Cl, CR(APInt::getZero(64)));
      W.runAfter(Cl, S);
      bad += d || r;
    }
  }
  R.stats["allocation_sites"] = sites;
  R.stats["unhandled"] = bad;
}
static Reg al1("alloc", anAlloc, NormOpts());
