// Error discipline: a failure reported by a callee is reported by the caller on every path.
#include "report.h"
#include "walk.h"
#include "cg.h"
using namespace sv;
using CR = ConstantRange;

std::string sv::returnTypedef(const Function *F) {
  auto *SP = F->getSubprogram();
  if (!SP || !SP->getType()) return "";
  auto arr = SP->getType()->getTypeArray();
  if (!arr.size() || !arr[0]) return "";
  if (auto *D = dyn_cast<DIDerivedType>(arr[0])) return D->getName().str();
  return "";
}

// result-code functions that can return something other than success
std::set<const Function *> sv::fallible(Program &P) {
  std::set<const Function *> r;
  bool ch = true;
  while (ch) {
    ch = false;
    for (Function &F : *P.M) {
      if (F.isDeclaration() || r.count(&F) || returnTypedef(&F) != "EAS_RESULT") continue;
      bool can = false;
      for (auto &B : F)
        if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) {
          std::set<const Value *> seen;
          std::function<void(const Value *)> go = [&](const Value *v) {
            v = stripCasts(v);
            if (!seen.insert(v).second) return;
            if (auto *C = dyn_cast<ConstantInt>(v)) { can |= !C->isZero(); return; }
            if (auto *Ph = dyn_cast<PHINode>(v)) { for (auto &o : Ph->incoming_values()) go(o); return; }
            if (auto *S = dyn_cast<SelectInst>(v)) { go(S->getTrueValue()); go(S->getFalseValue()); return; }
            if (auto *C = dyn_cast<CallBase>(v)) {
              bool unk;
              auto cs = callees(P, C, &unk);
              if (unk) can = true;
              for (auto *G : cs) can |= r.count(G) || (G->isDeclaration());
              return;
            }
            can = true;
          };
          if (R->getReturnValue()) go(R->getReturnValue());
        }
      if (can) r.insert(&F), ch = true;
    }
  }
  return r;
}

static void anErrors(Ctx &C, Report &R) {
  ModRef MR(C.P);
  auto fall = fallible(C.P);
  R.stats["fallible_functions"] = fall.size();
  long calls = 0, bad = 0, eof = 0, tol = 0;
  static const std::map<std::string, std::string> ok = {
      {"*:EAS_HWCloseFile", "closing"},
      {"EAS_IntSetStrmParam:EAS_SetStreamParameter", "falls back to the synthesizer"},
      {"EAS_IntGetStrmParam:EAS_GetStreamParameter", "falls back to the synthesizer"},
      {"EAS_SetVolume:EAS_GetStreamParameter", "the gain offset is optional"},
      {"EAS_Init:EAS_SetVolume", "constant legal volume"},
      {"EAS_SetPlaybackRate:EAS_SetStreamParameter", "parsers may ignore the rate"},
      {"SMF_CheckFileType:EAS_SearchFile", "end of file: not this type"},
      {"TC_CheckFileType:*", "an unparsable header: not this type"},
      {"VMInitialize:WT_Initialize", "returns a constant flag"}};
  auto tolerated = [&](const std::string &f, const std::string &g) { return ok.count(f + ":" + g) || ok.count("*:" + g) || (ok.count(f + ":*") && g != "EAS_HWMalloc"); };
  CG cg(C.P);
  auto host = [&](const std::vector<const Function *> &cs) {
    std::vector<const Function *> v;
    for (auto *G : cs) if (fall.count(G)) v.push_back(G);
    for (auto &kv : cg.reach(v)) {
      auto n = kv.first->getName();
      if (n == "EAS_HWMalloc" || (n.starts_with("EAS_HW") && fall.count(kv.first))) return true;
    }
    return false;
  };
  // where the end of the file ends the track instead of failing the call
  static const std::set<std::string> eofEnds = {"SMF_Event", "TC_Event"};
  for (Function &F : *C.P.M) {
    if (F.isDeclaration()) continue;
    bool res = returnTypedef(&F) == "EAS_RESULT";
    for (Instruction &I : instructions(F)) {
      auto *Cl = dyn_cast<CallBase>(&I);
      if (!Cl || !Cl->getType()->isIntegerTy()) continue;
      std::string slot;
      auto cs = callees(C.P, Cl, nullptr, &slot);
      bool f = false;
      std::string nm;
      for (auto *G : cs)
        if (fall.count(G)) f = true, nm = slot.empty() ? G->getName().str() : slot;
      if (!f) continue;
      calls++;
      std::string what = F.getName().str() + ":" + nm;
      if (tolerated(F.getName().str(), nm)) { tol++; R.note("tolerated", what + " at " + loc(Cl)); continue; }
      if (!res && !host(cs)) continue;
      if (!res) { R.add(what + ":nores", loc(Cl), "caller has no result"); continue; }
      Walk W(C.P, F, MR);
      bool hit = false;
      W.ret = [&](const ReturnInst *RI, WState &S) {
        if (W.nonZero(S, RI->getReturnValue())) return;
        if (hit) return;
        if (eofEnds.count(F.getName().str()))
          if (auto k = W.get(S, Cl); k.isSingleElement() && *k.getSingleElement() == 3) { eof++; return; }
        hit = true;
        auto p = Walk::path(S);
        p.push_back("returns at " + loc(RI));
        R.add(what, loc(Cl), "failure of " + nm + " is not reported by " + F.getName().str(), p);
      };
      WState S;
      S.fact.insert_or_assign(Cl, CR(APInt(Walk::bits(Cl), 1), APInt::getZero(Walk::bits(Cl))));
      W.runAfter(Cl, S);
      bad += hit;
      if (W.overflow) R.note("merged", what);
    }
  }
  R.stats["calls"] = calls;
  R.stats["unreported"] = bad;
  R.stats["tolerated"] = tol;
  R.stats["end_of_file_paths"] = eof;
}
static Reg e1("errors", anErrors, NormOpts());
