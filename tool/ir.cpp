#include "ir.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/IPO/FunctionAttrs.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/IR/Verifier.h"
#include <algorithm>

namespace sv {

std::string structName(const StructType *T) {
  if (!T->hasName()) return "anon";
  StringRef n = T->getName();
  n.consume_front("struct.");
  n.consume_front("union.");
  // strip a numeric suffix added by the linker
  size_t p = n.rfind('.');
  if (p != StringRef::npos) {
    StringRef s = n.substr(p + 1);
    if (!s.empty() && s.find_if([](char c) { return !isdigit(c); }) == StringRef::npos) n = n.substr(0, p);
  }
  return n.str();
}

bool isField0(const Value *V) {
  auto *C = dyn_cast<CallInst>(V);
  return C && C->getCalledFunction() && C->getCalledFunction()->getName().starts_with("sv.field0.");
}

static std::string typedefOf(const DIType *T) {
  for (int i = 0; T && i < 6; i++) {
    if (auto *C = dyn_cast<DICompositeType>(T)) { // array: its elements
      if (C->getTag() != dwarf::DW_TAG_array_type) return C->getName().str();
      T = C->getBaseType();
      continue;
    }
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) return T->getName().str();
    if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str();
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return "*";
    T = D->getBaseType(); // const, volatile
  }
  return "";
}

static void collectMembers(Program &P) {
  DebugInfoFinder F;
  F.processModule(*P.M);
  for (const DIType *T : F.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() != dwarf::DW_TAG_structure_type) continue;
    std::string name = C->getName().str();
    if (name.empty()) continue;
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
        if (D->getTag() != dwarf::DW_TAG_member) continue;
        P.members[name].emplace(D->getOffsetInBits() / 8, D->getName().str());
        P.memberOfs[name].emplace(D->getName().str(), D->getOffsetInBits() / 8);
        P.memberType[name].emplace(D->getName().str(), typedefOf(D->getBaseType()));
      }
  }
  // anonymous structs are named by their typedef
  for (const DIType *T : F.types()) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D || D->getTag() != dwarf::DW_TAG_typedef || !D->getBaseType()) continue;
    auto *C = dyn_cast<DICompositeType>(D->getBaseType());
    if (!C || C->getTag() != dwarf::DW_TAG_structure_type) continue;
    std::string name = C->getName().empty() ? D->getName().str() : C->getName().str();
    P.structAlias[D->getName().str()] = name;
    if (!C->getName().empty()) continue;
    for (auto *E : C->getElements())
      if (auto *M = dyn_cast_or_null<DIDerivedType>(E)) {
        if (M->getTag() != dwarf::DW_TAG_member) continue;
        P.members[name].emplace(M->getOffsetInBits() / 8, M->getName().str());
        P.memberOfs[name].emplace(M->getName().str(), M->getOffsetInBits() / 8);
        P.memberType[name].emplace(M->getName().str(), typedefOf(M->getBaseType()));
      }
  }
}

const StructType *structByName(const Program &P, const std::string &n) {
  static std::map<std::pair<const Module *, std::string>, const StructType *> memo;
  auto key = std::make_pair((const Module *)P.M.get(), n);
  if (auto it = memo.find(key); it != memo.end()) return it->second;
  for (StructType *T : P.M->getIdentifiedStructTypes())
    if (structName(T) == n && !T->isOpaque()) return memo[key] = T;
  return nullptr;
}

std::string fieldName(const Program &P, const std::string &st, unsigned idx, const StructType *T) {
  if (!T) T = structByName(P, st);
  auto it = P.members.find(st);
  if (T && it != P.members.end() && idx < T->getNumElements()) {
    uint64_t ofs = P.DL().getStructLayout(const_cast<StructType *>(T))->getElementOffset(idx);
    auto j = it->second.find(ofs);
    if (j != it->second.end()) return j->second;
  }
  return "#" + std::to_string(idx);
}

static void rewriteField0(Module &M) {
  for (Function &F : M) {
    SmallVector<GetElementPtrInst *, 32> w;
    for (Instruction &I : instructions(F))
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        if (G->hasAllZeroIndices() && isa<StructType>(G->getSourceElementType()) && G->getNumIndices() >= 2) w.push_back(G);
    for (auto *G : w) {
      auto *ST = cast<StructType>(G->getSourceElementType());
      // keep the tail of indices beyond the first struct member
      auto *PT = PointerType::get(M.getContext(), 0);
      std::string fn = "sv.field0." + structName(ST);
      FunctionCallee fc = M.getOrInsertFunction(fn, FunctionType::get(PT, {PT}, false));
      auto *Fn = cast<Function>(fc.getCallee());
      Fn->setDoesNotAccessMemory();
      Fn->setDoesNotThrow();
      Fn->setWillReturn();
      Fn->addFnAttr(Attribute::Speculatable);
      auto *C = CallInst::Create(fc, {G->getPointerOperand()}, "f0", G);
      C->setDebugLoc(G->getDebugLoc());
      G->replaceAllUsesWith(C);
      G->eraseFromParent();
    }
  }
}

static unsigned fsize(const Function &F) {
  unsigned n = 0;
  for (const Instruction &I : instructions(F))
    if (!isa<DbgInfoIntrinsic>(I)) n++;
  return n;
}

static void inlineStatics(Program &P, const NormOpts &o) {
  Module &M = *P.M;
  // bottom-up over SCCs: callee bodies are already flattened when the caller is processed
  CallGraph CG(M);
  std::vector<Function *> order;
  std::set<Function *> rec;
  for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
    const auto &scc = *it;
    for (CallGraphNode *N : scc)
      if (Function *F = N->getFunction())
        if (!F->isDeclaration()) {
          order.push_back(F);
          if (scc.size() > 1) rec.insert(F);
          for (auto &e : *N)
            if (e.second->getFunction() == F) rec.insert(F);
        }
  }
  for (Function *F : order) {
    bool changed = true;
    unsigned guard = 0;
    while (changed && guard++ < 400) {
      changed = false;
      for (Instruction &I : instructions(*F)) {
        auto *C = dyn_cast<CallInst>(&I);
        if (!C) continue;
        Function *G = C->getCalledFunction();
        if (!G || G->isDeclaration() || G == F || rec.count(G)) continue;
        if (!G->hasInternalLinkage() && !G->hasLinkOnceODRLinkage() && !G->hasAvailableExternallyLinkage() && !o.into.count(F->getName().str())) continue;
        if (o.keep.count(G->getName().str())) continue;
        if (G->isVarArg()) continue;
        unsigned s = fsize(*G);
        bool single = G->hasOneUse();
        if (s > o.inlineLimit && !(single && s < 4 * o.inlineLimit)) continue;
        if (fsize(*F) > 30000) continue;
        InlineFunctionInfo IFI;
        auto R = InlineFunction(*C, IFI);
        if (R.isSuccess()) {
          changed = true;
          break;
        }
      }
    }
  }
}

static void runFPM(Module &M, std::function<void(FunctionPassManager &)> add, bool attrs = false) {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (attrs) MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass()));
  FunctionPassManager FPM;
  add(FPM);
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(M, MAM);
}

static void runFn(Function &F, std::function<void(FunctionPassManager &)> add) {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  add(FPM);
  FPM.run(F, FAM);
}

void unrollFully(Function &F) {
  std::vector<CallInst *> f0;
  for (auto &I : instructions(F)) if (isField0(&I)) f0.push_back(cast<CallInst>(&I));
  for (auto *c : f0) { c->replaceAllUsesWith(c->getArgOperand(0)); c->eraseFromParent(); }
  for (unsigned guard = 0; guard < 200; guard++) {
    runFn(F, [](FunctionPassManager &P) {
      P.addPass(LoopSimplifyPass());
      P.addPass(LCSSAPass());
      P.addPass(createFunctionToLoopPassAdaptor(LoopRotatePass()));
      P.addPass(LoopSimplifyPass());
      P.addPass(LCSSAPass());
    });
    DominatorTree DT(F);
    LoopInfo LI(DT);
    AssumptionCache AC(F);
    TargetLibraryInfoImpl TII(Triple(F.getParent()->getTargetTriple()));
    TargetLibraryInfo TLI(TII);
    ScalarEvolution SE(F, TLI, AC, DT, LI);
    TargetTransformInfo TTI(F.getParent()->getDataLayout());
    OptimizationRemarkEmitter ORE(&F);
    bool did = false;
    for (auto *L : LI.getLoopsInPreorder()) {
      if (!L->isInnermost()) continue;
      unsigned n = SE.getSmallConstantTripCount(L);
      if (!n || n > 256) continue;
      UnrollLoopOptions U{};
      U.Count = n;
      U.Force = true;
      U.Runtime = false;
      U.AllowExpensiveTripCount = false;
      U.UnrollRemainder = false;
      U.ForgetAllSCEV = true;
      if (UnrollLoop(L, U, &LI, &SE, &DT, &AC, &TTI, &ORE, true) != LoopUnrollResult::Unmodified) { did = true; break; }
    }
    if (!did) break;
  }
  runFn(F, [](FunctionPassManager &P) {
    P.addPass(SROAPass(SROAOptions::ModifyCFG));
    P.addPass(InstCombinePass());
    P.addPass(SimplifyCFGPass());
    P.addPass(EarlyCSEPass(true));
    P.addPass(InstCombinePass());
    P.addPass(SimplifyCFGPass());
  });
  removeUnreachableBlocks(F);
}

// Give every loop one way back to its header (a "continue" is another), as the analysis of its turns expects.
static void oneLatch(Function &F) {
  for (bool again = true; again;) {
    again = false;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    for (auto *L : LI.getLoopsInPreorder()) {
      if (L->getLoopLatch()) continue;
      BasicBlock *H = L->getHeader();
      SmallVector<BasicBlock *, 4> back;
      L->getLoopLatches(back);
      bool plain = true;
      for (auto *B : back) plain &= isa<BranchInst>(B->getTerminator()) || isa<SwitchInst>(B->getTerminator());
      if (!plain || back.size() < 2) continue;
      BasicBlock *N = BasicBlock::Create(F.getContext(), "latch", &F);
      auto *Br = BranchInst::Create(H, N);
      for (auto *B : back) if (auto &dl = B->getTerminator()->getDebugLoc()) Br->setDebugLoc(dl);
      for (auto &Ph : H->phis()) {
        Value *same = nullptr;
        bool one = true;
        for (auto *B : back) { auto *v = Ph.getIncomingValueForBlock(B); if (!same) same = v; else one &= same == v; }
        // a value that is the same on all of them dominates the new block only if it is defined in a block that does
        if (one) if (auto *I = dyn_cast<Instruction>(same)) for (auto *B : back) one &= DT.dominates(I->getParent(), B);
        Value *v = same;
        if (!one) {
          auto *Q = PHINode::Create(Ph.getType(), back.size(), Ph.getName() + ".back", Br);
          for (auto *B : back) for (unsigned i = 0; i < Ph.getNumIncomingValues(); i++) if (Ph.getIncomingBlock(i) == B) Q->addIncoming(Ph.getIncomingValue(i), B);
          v = Q;
        }
        for (auto *B : back) while (Ph.getBasicBlockIndex(B) >= 0) Ph.removeIncomingValue(B, false);
        Ph.addIncoming(v, N);
      }
      for (auto *B : back) B->getTerminator()->replaceSuccessorWith(H, N);
      again = true;
      break;
    }
  }
}

// Give every "return X" its own return instruction, so facts at the exits stay
// separate per returned value.
static void splitReturns(Function &F) {
  SmallVector<Instruction *, 16> life;
  for (Instruction &I : instructions(F))
    if (auto *II = dyn_cast<IntrinsicInst>(&I))
      if (II->isLifetimeStartOrEnd()) life.push_back(&I);
  for (auto *I : life) I->eraseFromParent();
  bool ch = true;
  unsigned guard = 0;
  while (ch && guard++ < 2000) {
    ch = false;
    for (BasicBlock &B : F) {
      auto *R = dyn_cast<ReturnInst>(B.getTerminator());
      if (!R || pred_size(&B) < 2) continue;
      bool simple = true;
      for (Instruction &I : B)
        if (!isa<PHINode>(I) && !isa<ReturnInst>(I) && !isa<DbgInfoIntrinsic>(I)) simple = false;
      if (!simple) continue;
      std::vector<BasicBlock *> preds(pred_begin(&B), pred_end(&B));
      std::set<BasicBlock *> uniq(preds.begin(), preds.end());
      if (uniq.size() < 2) continue;
      BasicBlock *Pd = *uniq.begin();
      // the predecessor with the smallest position, for determinism
      for (BasicBlock &X : F)
        if (uniq.count(&X)) {
          Pd = &X;
          break;
        }
      Value *rv = R->getReturnValue();
      if (auto *Ph = dyn_cast_or_null<PHINode>(rv))
        if (Ph->getParent() == &B) rv = Ph->getIncomingValueForBlock(Pd);
      BasicBlock *N = BasicBlock::Create(F.getContext(), "ret", &F);
      auto *NR = ReturnInst::Create(F.getContext(), rv, N);
      NR->setDebugLoc(Pd->getTerminator()->getDebugLoc() ? Pd->getTerminator()->getDebugLoc() : R->getDebugLoc());
      unsigned k = 0;
      Instruction *T = Pd->getTerminator();
      for (unsigned i = 0; i < T->getNumSuccessors(); i++)
        if (T->getSuccessor(i) == &B) {
          T->setSuccessor(i, N);
          k++;
        }
      for (PHINode &Ph : B.phis())
        for (unsigned i = 0; i < k; i++) Ph.removeIncomingValue(Pd, false);
      if (auto *PB = dyn_cast<BranchInst>(Pd->getTerminator()); PB && PB->isUnconditional()) {
        PB->eraseFromParent();
        NR->moveBefore(*Pd, Pd->end());
        N->eraseFromParent();
      }
      ch = true;
      break;
    }
  }
}

// Truth values that travel through integers (a helper returning a flag) become plain i1 values, so that
// jump threading sees the tests behind them.
static void foldBools(Function &F) {
  auto asBool = [](Value *V) -> Value * {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->isZero()) return ConstantInt::getFalse(V->getContext());
      if (C->isOne()) return ConstantInt::getTrue(V->getContext());
      return nullptr;
    }
    if (auto *Z = dyn_cast<ZExtInst>(V); Z && Z->getSrcTy()->isIntegerTy(1)) return Z->getOperand(0);
    return nullptr;
  };
  for (bool ch = true; ch;) {
    ch = false;
    for (BasicBlock &B : F) {
      for (PHINode &Ph : make_early_inc_range(B.phis())) {
        if (!Ph.getType()->isIntegerTy() || Ph.getType()->isIntegerTy(1) || Ph.use_empty()) continue;
        bool ok = true, var = false;
        for (auto &o : Ph.incoming_values()) { auto *b = asBool(o); ok &= b != nullptr; var |= b && !isa<Constant>(b); }
        if (!ok || !var) continue;
        auto *N = PHINode::Create(Type::getInt1Ty(F.getContext()), Ph.getNumIncomingValues(), "", &Ph);
        for (unsigned i = 0; i < Ph.getNumIncomingValues(); i++) N->addIncoming(asBool(Ph.getIncomingValue(i)), Ph.getIncomingBlock(i));
        N->setDebugLoc(Ph.getDebugLoc());
        auto *Z = new ZExtInst(N, Ph.getType(), "", &*B.getFirstInsertionPt());
        Z->setDebugLoc(Ph.getDebugLoc());
        Ph.replaceAllUsesWith(Z);
        Ph.eraseFromParent();
        ch = true;
      }
      for (Instruction &I : make_early_inc_range(B)) {
        auto *C = dyn_cast<ICmpInst>(&I);
        if (!C || !C->isEquality() || C->use_empty()) continue;
        auto *Z = dyn_cast<ZExtInst>(C->getOperand(0));
        auto *K = dyn_cast<ConstantInt>(C->getOperand(1));
        if (!Z || !K || !Z->getSrcTy()->isIntegerTy(1) || !(K->isZero() || K->isOne())) continue;
        bool same = (C->getPredicate() == ICmpInst::ICMP_NE) == K->isZero();
        Value *v = Z->getOperand(0);
        if (!same) {
          bool br = true; // turn the branches round instead
          for (auto *U : C->users()) { auto *T = dyn_cast<BranchInst>(U); br &= T && T->isConditional(); }
          if (!br) continue;
          for (auto *U : C->users()) cast<BranchInst>(U)->swapSuccessors();
        }
        C->replaceAllUsesWith(v);
        C->eraseFromParent();
        ch = true;
      }
    }
  }
}

// A block that does nothing but branch on a merged truth value: arrivals with a known value go straight on.
static bool threadBool(Function &F) {
  DominatorTree DT(F);
  LoopInfo LI(DT);
  for (BasicBlock &B : F) {
    auto *T = dyn_cast<BranchInst>(B.getTerminator());
    if (!T || !T->isConditional()) continue;
    auto *C = dyn_cast<PHINode>(T->getCondition());
    if (!C || C->getParent() != &B || LI.isLoopHeader(&B) || T->getSuccessor(0) == T->getSuccessor(1)) continue;
    bool ok = true;
    SmallVector<Instruction *, 4> dead;
    for (Instruction &I : B) {
      if (&I == T || isDbg(&I)) continue;
      if (isa<ZExtInst>(I) && I.use_empty()) { dead.push_back(&I); continue; }
      if (!isa<PHINode>(I)) ok = false;
      for (auto *U : I.users()) {
        if (isa<PHINode>(U)) {
          auto *Q = cast<PHINode>(U);
          for (unsigned i = 0; i < Q->getNumIncomingValues(); i++) if (Q->getIncomingValue(i) == &I && Q->getIncomingBlock(i) != &B) ok = false;
        } else if (U != T && !(isa<ZExtInst>(U) && U->use_empty())) ok = false;
      }
    }
    if (!ok) continue;
    for (unsigned i = 0; i < C->getNumIncomingValues(); i++) {
      auto *K = dyn_cast<ConstantInt>(C->getIncomingValue(i));
      if (!K) continue;
      BasicBlock *Pd = C->getIncomingBlock(i), *To = T->getSuccessor(K->isZero() ? 1 : 0);
      unsigned n = 0;
      for (unsigned k = 0; k < Pd->getTerminator()->getNumSuccessors(); k++) n += Pd->getTerminator()->getSuccessor(k) == &B || Pd->getTerminator()->getSuccessor(k) == To;
      if (n != 1 || DT.dominates(To, Pd) || isa<SwitchInst>(Pd->getTerminator())) continue;
      for (auto *I : dead) I->eraseFromParent();
      for (PHINode &Q : To->phis()) {
        Value *v = Q.getIncomingValueForBlock(&B);
        if (auto *X = dyn_cast<PHINode>(v); X && X->getParent() == &B) v = X->getIncomingValueForBlock(Pd);
        Q.addIncoming(v, Pd);
      }
      Pd->getTerminator()->replaceSuccessorWith(&B, To);
      for (PHINode &Q : make_early_inc_range(B.phis())) Q.removeIncomingValue(Pd, false);
      if (pred_size(&B) == 1) {
        for (PHINode &Q : make_early_inc_range(B.phis())) { Q.replaceAllUsesWith(Q.getIncomingValue(0)); Q.eraseFromParent(); }
        MergeBlockIntoPredecessor(&B);
      }
      return true;
    }
  }
  return false;
}

static void collectSlots(Program &P) {
  Module &M = *P.M;
  std::function<void(const Constant *, GlobalVariable *)> walk = [&](const Constant *C, GlobalVariable *G) {
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
      std::string n = structName(S->getType());
      bool any = false;
      for (unsigned i = 0; i < S->getNumOperands(); i++) {
        const Constant *op = S->getOperand(i);
        if (auto *F = dyn_cast<Function>(op->stripPointerCasts())) {
          auto &v = P.slotTargets[n + "#" + std::to_string(i)];
          if (std::find(v.begin(), v.end(), F) == v.end()) v.push_back(const_cast<Function *>(F));
          any = true;
        } else
          walk(op, G);
      }
      if (any) P.slotTables[n].push_back(G);
    } else if (auto *A = dyn_cast<ConstantAggregate>(C))
      for (auto &op : A->operands()) walk(cast<Constant>(op), G);
  };
  for (GlobalVariable &G : M.globals())
    if (G.hasInitializer()) walk(G.getInitializer(), &G);
  for (Function &F : M)
    if (F.hasAddressTaken()) P.addrTaken.insert(&F);
}

std::unique_ptr<Program> loadProgram(const std::vector<std::string> &files, const NormOpts &o) {
  auto P = std::make_unique<Program>();
  for (auto &f : files) {
    SMDiagnostic E;
    auto m = parseIRFile(f, E, P->ctx);
    if (!m) {
      E.print("svcheck", errs());
      exit(3);
    }
    if (!P->M)
      P->M = std::move(m);
    else if (Linker::linkModules(*P->M, std::move(m))) {
      errs() << "link failed\n";
      exit(3);
    }
  }
  collectMembers(*P);
  Module &M = *P->M;
  for (Function &F : M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
  }
  runFPM(M, [](FunctionPassManager &FPM) { FPM.addPass(PromotePass()); });
  rewriteField0(M);
  if (o.inlineStatics) {
    inlineStatics(*P, o);
    // a static function all of whose calls were inlined is analysed in its callers
    for (bool ch = true; ch;) {
      ch = false;
      for (auto it = M.begin(); it != M.end();) {
        Function &F = *it++;
        if (!F.isDeclaration() && F.hasInternalLinkage() && F.use_empty()) F.eraseFromParent(), ch = true;
      }
    }
    runFPM(M, [](FunctionPassManager &FPM) { FPM.addPass(PromotePass()); });
  }
  // drop unreachable blocks
  for (Function &F : M)
    if (!F.isDeclaration()) removeUnreachableBlocks(F);
  for (Function &F : M)
    if (!F.isDeclaration() && o.inlineStatics) {
      foldBools(F);
      for (unsigned n = 0; n < 500 && threadBool(F); n++) foldBools(F);
    }
  if (o.gvn) {
    runFPM(
        M,
        [&](FunctionPassManager &FPM) {
          if (o.thread) FPM.addPass(JumpThreadingPass(20));
          FPM.addPass(EarlyCSEPass(true));
          GVNOptions go;
          go.setPRE(false);
          go.setLoadPRE(false);
          FPM.addPass(GVNPass(go));
        },
        true);
    for (Function &F : M)
      if (!F.isDeclaration()) removeUnreachableBlocks(F);
  }
  for (Function &F : M)
    if (!F.isDeclaration()) oneLatch(F), splitReturns(F);
  collectSlots(*P);
  if (verifyModule(M, &errs())) {
    errs() << "bad module\n";
    exit(3);
  }
  return P;
}

const Value *stripCasts(const Value *V) {
  while (true) {
    if (auto *C = dyn_cast<CastInst>(V)) {
      V = C->getOperand(0);
      continue;
    }
    if (auto *F = dyn_cast<FreezeInst>(V)) {
      V = F->getOperand(0);
      continue;
    }
    return V;
  }
}

Addr decompose(const Value *ptr) {
  Addr A;
  std::vector<Step> rev;
  const Value *V = ptr;
  while (true) {
    if (auto *G = dyn_cast<GEPOperator>(V)) {
      std::vector<Step> st;
      Type *T = G->getSourceElementType();
      auto it = G->idx_begin();
      // first index: pointer arithmetic over T
      if (!(isa<ConstantInt>(*it) && cast<ConstantInt>(*it)->isZero())) {
        Step s;
        s.k = Step::Index;
        s.elemTy = T;
        s.var = *it;
        s.at = dyn_cast<Instruction>(V);
        st.push_back(s);
      }
      for (++it; it != G->idx_end(); ++it) {
        if (auto *S = dyn_cast<StructType>(T)) {
          Step s;
          s.k = Step::Field;
          s.st = structName(S);
          s.idx = cast<ConstantInt>(*it)->getZExtValue();
          s.at = dyn_cast<Instruction>(V);
          st.push_back(s);
          T = S->getElementType(s.idx);
        } else {
          auto *AT = cast<ArrayType>(T);
          Step s;
          s.k = Step::Index;
          s.elemTy = AT->getElementType();
          s.arrLen = AT->getNumElements();
          s.var = *it;
          s.at = dyn_cast<Instruction>(V);
          st.push_back(s);
          T = AT->getElementType();
        }
      }
      rev.insert(rev.end(), st.rbegin(), st.rend());
      V = G->getPointerOperand();
      continue;
    }
    if (isField0(V)) {
      auto *C = cast<CallInst>(V);
      Step s;
      s.k = Step::Field;
      s.st = C->getCalledFunction()->getName().substr(strlen("sv.field0.")).str();
      s.idx = 0;
      s.at = C;
      rev.push_back(s);
      V = C->getArgOperand(0);
      continue;
    }
    if (auto *B = dyn_cast<BitCastOperator>(V)) {
      V = B->getOperand(0);
      continue;
    }
    break;
  }
  A.root = V;
  A.steps.assign(rev.rbegin(), rev.rend());
  return A;
}

std::string Addr::field(const Program &P) const {
  for (auto it = steps.rbegin(); it != steps.rend(); ++it)
    if (it->k == Step::Field) return it->st + "." + fieldName(P, it->st, it->idx);
  return "";
}

std::string Addr::str(const Program &P) const {
  std::string s = root->hasName() ? root->getName().str() : "<ptr>";
  if (auto *L = dyn_cast<LoadInst>(root)) {
    auto f = decompose(L->getPointerOperand()).field(P);
    s = f.empty() ? "*ptr" : "(" + f + ")";
  }
  for (auto &st : steps)
    if (st.k == Step::Field)
      s += "->" + st.st + "." + fieldName(P, st.st, st.idx);
    else {
      s += "[";
      if (auto *C = dyn_cast_or_null<ConstantInt>(st.var))
        s += std::to_string(C->getSExtValue());
      else
        s += "?";
      s += "]";
    }
  return s;
}

std::string calleeName(const CallBase *C) {
  if (auto *F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) return F->getName().str();
  return "";
}

std::string slotOf(const Program &P, const Value *fp) {
  fp = stripCasts(fp);
  if (auto *L = dyn_cast<LoadInst>(fp)) {
    Addr A = decompose(L->getPointerOperand());
    return A.field(P);
  }
  return "";
}

std::vector<const Function *> callees(const Program &P, const CallBase *C, bool *unknown, std::string *slot) {
  std::vector<const Function *> r;
  if (unknown) *unknown = false;
  const Value *fp = C->getCalledOperand()->stripPointerCasts();
  if (auto *F = dyn_cast<Function>(fp)) {
    r.push_back(F);
    return r;
  }
  if (auto *L = dyn_cast<LoadInst>(stripCasts(fp))) {
    Addr A = decompose(L->getPointerOperand());
    for (auto it = A.steps.rbegin(); it != A.steps.rend(); ++it)
      if (it->k == Step::Field) {
        std::string key = it->st + "#" + std::to_string(it->idx);
        if (slot) *slot = it->st + "." + fieldName(P, it->st, it->idx);
        auto j = P.slotTargets.find(key);
        if (j != P.slotTargets.end()) {
          r.assign(j->second.begin(), j->second.end());
          return r;
        }
        break;
      }
  }
  if (auto *Ph = dyn_cast<PHINode>(fp)) {
    std::set<const Function *> s;
    bool ok = true;
    for (auto &v : Ph->incoming_values())
      if (auto *F = dyn_cast<Function>(v->stripPointerCasts()))
        s.insert(F);
      else
        ok = false;
    if (ok) {
      r.assign(s.begin(), s.end());
      return r;
    }
  }
  if (unknown) *unknown = true;
  return r;
}

std::string srcFunc(const Instruction *I) {
  if (const DILocation *D = I->getDebugLoc()) {
    if (auto *SP = D->getScope()->getSubprogram()) return SP->getName().str();
  }
  return I->getFunction()->getName().str();
}
unsigned srcLine(const Instruction *I) {
  if (const DILocation *D = I->getDebugLoc()) return D->getLine();
  return 0;
}
std::string srcFile(const Instruction *I) {
  if (const DILocation *D = I->getDebugLoc()) {
    StringRef f = D->getFilename();
    size_t p = f.rfind('/');
    return (p == StringRef::npos ? f : f.substr(p + 1)).str();
  }
  if (auto *SP = I->getFunction()->getSubprogram()) {
    StringRef f = SP->getFilename();
    size_t p = f.rfind('/');
    return (p == StringRef::npos ? f : f.substr(p + 1)).str();
  }
  return "?";
}
std::string loc(const Instruction *I) { return srcFile(I) + ":" + std::to_string(srcLine(I)) + " (" + srcFunc(I) + ")"; }
std::string locF(const Function *F) {
  if (auto *SP = F->getSubprogram()) {
    StringRef f = SP->getFilename();
    size_t p = f.rfind('/');
    return (p == StringRef::npos ? f : f.substr(p + 1)).str() + ":" + std::to_string(SP->getLine()) + " (" + F->getName().str() + ")";
  }
  return F->getName().str();
}
bool isDbg(const Instruction *I) { return isa<DbgInfoIntrinsic>(I); }
} // namespace sv
