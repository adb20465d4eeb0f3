// Does a function dereference a pointer parameter on a path where that parameter is null?
#pragma once
#include "walk.h"
namespace sv {
struct NullArg {
  Program &P;
  ModRef &MR;
  std::map<std::pair<const Function *, unsigned>, std::string> memo; // "" no
  NullArg(Program &P, ModRef &MR) : P(P), MR(MR) {}
  static bool freeLike(StringRef n) { return n == "free" || n == "EAS_HWFree"; }
  // the pointer that I dereferences and that is null in S, or ""
  std::string derefs(Walk &W, const Instruction *I, const WState &S, int depth) {
    auto isNull = [&](const Value *p) {
      p = decompose(p).root;
      const Value *c = W.canon(S, p);
      c = decompose(c).root;
      if (isa<AllocaInst>(c) || isa<GlobalValue>(c)) return false;
      return W.isZero(S, c);
    };
    if (auto *L = dyn_cast<LoadInst>(I)) return isNull(L->getPointerOperand()) ? "read through at " + loc(I) : "";
    if (auto *St = dyn_cast<StoreInst>(I)) return isNull(St->getPointerOperand()) ? "written through at " + loc(I) : "";
    if (auto *M = dyn_cast<MemIntrinsic>(I)) {
      if (isNull(M->getDest())) return "cleared or copied to at " + loc(I);
      if (auto *T = dyn_cast<MemTransferInst>(M); T && isNull(T->getSource())) return "copied from at " + loc(I);
      return "";
    }
    auto *C = dyn_cast<CallBase>(I);
    if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) return "";
    for (unsigned i = 0; i < C->arg_size(); i++) {
      auto *a = C->getArgOperand(i);
      if (!a->getType()->isPointerTy() || isa<Constant>(a) || !isNull(a)) continue;
      for (auto *G : callees(P, C)) {
        if (i >= G->arg_size() && !G->isDeclaration()) continue;
        std::string r = bad(G, i, depth + 1);
        if (!r.empty()) return "passed to " + G->getName().str() + " at " + loc(I) + ", " + r;
      }
    }
    return "";
  }
  std::string bad(const Function *G, unsigned i, int depth) {
    if (G->isDeclaration()) {
      auto n = G->getName();
      if (freeLike(n)) return "";
      return n.starts_with("mem") || n.starts_with("str") || n.starts_with("__mem") ? "dereferenced by " + n.str() : "";
    }
    auto k = std::make_pair(G, i);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    if (depth > 5 || freeLike(G->getName())) return "";
    memo[k] = "";
    Walk W(P, *G, MR);
    std::string res;
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
      if (res.empty()) {
        res = derefs(W, I, S, depth);
        if (!res.empty()) W.stop = true;
      }
      return true;
    };
    WState S;
    S.fact.insert_or_assign(G->getArg(i), ConstantRange(APInt::getZero(64)));
    W.run(S);
    return memo[k] = res;
  }
};
} // namespace sv
