// Termination: every loop makes progress towards an exit.
#include "cg.h"
#include "ranges.h"
#include "report.h"
#include "walk.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/TargetParser/Triple.h"
using namespace sv;
using CR = ConstantRange;
namespace sv { std::unique_ptr<Ranges> solveRanges(Ctx &C, Report &Rp); }

namespace {
typedef __int128 I;
struct Delta { I lo, hi; };
struct Loops {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  CG cg;
  std::unique_ptr<Ranges> E;
  std::map<const Function *, int> cons; // -1 busy, 0 no, 1 yes
  std::map<const Function *, bool> seeks;
  std::set<const Function *> live; // reachable from the API
  Loops(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P), cg(C.P) {
    std::vector<const Function *> w;
    for (auto &n : C.roots) if (auto *F = P.M->getFunction(n)) w.push_back(F);
    for (size_t i = 0; i < w.size(); i++)
      if (live.insert(w[i]).second)
        for (auto &e : cg.out[w[i]]) if (inUse(e.first, e.second)) w.push_back(e.first);
  }
  // a table of operations nobody refers to is not registered: its functions are never called
  std::map<const Function *, bool> used;
  bool inUse(const Function *G, const CallBase *Cl) {
    if (Cl && Cl->getCalledFunction()) return true;
    auto it = used.find(G);
    if (it != used.end()) return it->second;
    bool u = false;
    for (auto *U : G->users()) {
      auto *T = dyn_cast<ConstantAggregate>(U);
      if (!T) { u = true; continue; }
      for (auto *V : T->users()) {
        auto *GV = dyn_cast<GlobalVariable>(V);
        if (!GV || !GV->use_empty()) u = true;
      }
    }
    return used[G] = u;
  }
  std::vector<const Function *> targets(const CallBase *Cl, bool *unk = nullptr) {
    std::vector<const Function *> r;
    for (auto *G : callees(P, Cl, unk)) if (inUse(G, Cl)) r.push_back(G);
    return r;
  }

  // value range of operand v of instruction at, over all reachable states
  std::map<std::pair<const Instruction *, const Value *>, CR> rng;
  std::set<const BasicBlock *> seen;
  const Function *cur = nullptr;
  void enter(const Function &F) {
    if (cur == &F) return;
    cur = &F;
    rng.clear();
    seen.clear();
    E->visit(F, [&](const Instruction *I, const BState &S) {
      seen.insert(I->getParent());
      if (isDbg(I)) return;
      for (auto &o : I->operands())
        if (o->getType()->isIntegerTy()) {
          CR r = E->at(o, S);
          auto it = rng.insert({{I, o.get()}, r});
          if (!it.second) it.first->second = it.first->second.unionWith(r);
        }
    });
  }
  CR range(const Instruction *I, const Value *v) {
    if (auto *K = dyn_cast<ConstantInt>(v)) return CR(K->getValue());
    auto it = rng.find({I, v});
    return it == rng.end() ? CR::getFull(v->getType()->getIntegerBitWidth()) : it->second;
  }
  static I sgn(const APInt &a) { return a.getSExtValue(); }
  static I uns(const APInt &a) { return (I)a.getZExtValue(); }

  // value of v without regard to the width it is computed in (64 bit sums do not wrap)
  Delta offset(const Instruction *at, const Value *v, int depth = 4) {
    CR o = range(at, v);
    if (o.isEmptySet()) return {0, 0};
    Delta r{sgn(o.getSignedMin()), sgn(o.getSignedMax())};
    auto *B = dyn_cast<BinaryOperator>(v);
    if (depth && B && v->getType()->isIntegerTy(64) && (r.lo == (I)INT64_MIN || r.hi == (I)INT64_MAX) && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
      auto a = offset(B, B->getOperand(0), depth - 1), b = offset(B, B->getOperand(1), depth - 1);
      if (B->getOpcode() == Instruction::Add) return {a.lo + b.lo, a.hi + b.hi};
      return {a.lo - b.hi, a.hi - b.lo};
    }
    return r;
  }
  // change of v relative to the header phi, per iteration
  std::optional<Delta> delta(const Value *v, const PHINode *Ph, const Loop *L, std::set<const Value *> &busy) {
    if (v == Ph) return Delta{0, 0};
    auto *In = dyn_cast<Instruction>(v);
    if (!In || !L->contains(In)) return {};
    if (isField0(In)) return delta(cast<CallBase>(In)->getArgOperand(0), Ph, L, busy);
    if (isa<SExtInst>(In) || isa<ZExtInst>(In) || isa<TruncInst>(In) || isa<FreezeInst>(In)) return delta(In->getOperand(0), Ph, L, busy);
    if (auto *B = dyn_cast<BinaryOperator>(In)) {
      bool add = B->getOpcode() == Instruction::Add, sub = B->getOpcode() == Instruction::Sub;
      if (!add && !sub) return {};
      for (int k = 0; k < (add ? 2 : 1); k++) {
        auto d = delta(B->getOperand(k), Ph, L, busy);
        if (!d) continue;
        auto of = offset(B, B->getOperand(1 - k));
        I lo = of.lo, hi = of.hi;
        return add ? Delta{d->lo + lo, d->hi + hi} : Delta{d->lo - hi, d->hi - lo};
      }
      return {};
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(In)) {
      auto d = delta(G->getPointerOperand(), Ph, L, busy);
      if (!d || G->getNumIndices() != 1) return {};
      I sz = P.DL().getTypeAllocSize(G->getSourceElementType());
      CR o = range(G, G->getOperand(1));
      I lo = sgn(o.getSignedMin()), hi = sgn(o.getSignedMax());
      if (lo < -((I)1 << 40) || hi > ((I)1 << 40)) return {};
      return Delta{d->lo + sz * lo, d->hi + sz * hi};
    }
    if (!busy.insert(v).second) return {};
    std::optional<Delta> r;
    auto join = [&](const Value *x) {
      auto d = delta(x, Ph, L, busy);
      if (!d) return false;
      if (!r) r = d;
      else r = Delta{std::min(r->lo, d->lo), std::max(r->hi, d->hi)};
      return true;
    };
    bool ok = false;
    if (auto *S = dyn_cast<SelectInst>(In)) ok = join(S->getTrueValue()) && join(S->getFalseValue());
    else if (auto *Q = dyn_cast<PHINode>(In)) {
      ok = true;
      for (unsigned i = 0; i < Q->getNumIncomingValues() && ok; i++)
        if (seen.count(Q->getIncomingBlock(i)) && Q->getIncomingValue(i) != Q) ok = join(Q->getIncomingValue(i));
    }
    busy.erase(v);
    if (!ok) return {};
    return r;
  }
  static std::vector<const BasicBlock *> latches(const Loop *L) {
    SmallVector<BasicBlock *, 4> v;
    L->getLoopLatches(v);
    return {v.begin(), v.end()};
  }
  // conditions that hold whenever another iteration starts: (compare, outcome)
  std::vector<std::pair<const ICmpInst *, bool>> continueConds(const Loop *L, const DominatorTree &DT) {
    std::vector<std::pair<const ICmpInst *, bool>> r;
    for (auto *B : L->blocks()) {
      auto *Br = dyn_cast<BranchInst>(B->getTerminator());
      if (!Br || !Br->isConditional()) continue;
      for (int k = 0; k < 2; k++) {
        auto *T = Br->getSuccessor(k), *O = Br->getSuccessor(1 - k);
        if (T == O || L->contains(O)) continue;
        bool dom = true;
        for (auto *l : latches(L)) dom &= DT.dominates(B, l);
        if (!dom) continue;
        std::function<void(const Value *, bool)> go = [&](const Value *c, bool t) {
          if (auto *IC = dyn_cast<ICmpInst>(c)) { r.push_back({IC, t}); return; }
          auto *BO = dyn_cast<BinaryOperator>(c);
          if (BO && BO->getOpcode() == Instruction::Xor && isa<ConstantInt>(BO->getOperand(1))) go(BO->getOperand(0), !t);
          if (BO && ((BO->getOpcode() == Instruction::And && t) || (BO->getOpcode() == Instruction::Or && !t))) go(BO->getOperand(0), t), go(BO->getOperand(1), t);
          if (auto *S = dyn_cast<SelectInst>(c)) { // a && b, a || b
            if (t && match0(S->getFalseValue())) go(S->getCondition(), true), go(S->getTrueValue(), true);
            if (!t && match1(S->getTrueValue())) go(S->getCondition(), false), go(S->getFalseValue(), false);
          }
        };
        go(Br->getCondition(), k == 0);
      }
    }
    return r;
  }
  static bool match0(const Value *v) { auto *K = dyn_cast<ConstantInt>(v); return K && K->isZero(); }
  static bool match1(const Value *v) { auto *K = dyn_cast<ConstantInt>(v); return K && K->isOne(); }

  // a header phi that moves one way and is compared, every iteration, with a bound on that side
  std::string ivRule(const Loop *L, const DominatorTree &DT) {
    auto conds = continueConds(L, DT);
    for (auto &Ph : L->getHeader()->phis()) {
      bool ptr = Ph.getType()->isPointerTy();
      if (!ptr && !Ph.getType()->isIntegerTy()) continue;
      std::optional<Delta> d;
      bool ok = true;
      std::vector<const Value *> next;
      for (unsigned i = 0; i < Ph.getNumIncomingValues(); i++) {
        if (!L->contains(Ph.getIncomingBlock(i)) || !seen.count(Ph.getIncomingBlock(i))) continue;
        next.push_back(Ph.getIncomingValue(i));
        std::set<const Value *> busy;
        auto x = delta(Ph.getIncomingValue(i), &Ph, L, busy);
        if (!x) { ok = false; continue; }
        d = d ? Delta{std::min(d->lo, x->lo), std::max(d->hi, x->hi)} : *x;
      }
      // the next value is compared with the present one and has to be greater
      for (auto &cc : conds) {
        auto pr = cc.second ? cc.first->getPredicate() : cc.first->getInversePredicate();
        auto *a = stripCasts(cc.first->getOperand(0)), *b = stripCasts(cc.first->getOperand(1));
        auto isNext = [&](const Value *v) { for (auto *n : next) if (stripCasts(n) != v) return false; return !next.empty(); };
        if ((pr == ICmpInst::ICMP_UGT || pr == ICmpInst::ICMP_SGT || pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_SLT) &&
            ((isNext(a) && b == &Ph) || (isNext(b) && a == &Ph)))
          return "a value that every iteration is tested to move on";
      }
      if (!ok || !d) continue;
      bool up = d->lo >= 1, down = d->hi <= -1;
      if (!up && !down) continue;
      unsigned w = ptr ? 64 : Ph.getType()->getIntegerBitWidth();
      for (auto &cc : conds) {
        auto *IC = cc.first;
        for (int k = 0; k < 2; k++) {
          std::set<const Value *> busy;
          auto dA = delta(IC->getOperand(k), &Ph, L, busy);
          if (!dA) continue;
          auto pr = cc.second ? IC->getPredicate() : IC->getInversePredicate();
          if (k) pr = ICmpInst::getSwappedPredicate(pr);
          const Value *Bv = IC->getOperand(1 - k);
          bool lt = pr == ICmpInst::ICMP_SLT || pr == ICmpInst::ICMP_ULT, le = pr == ICmpInst::ICMP_SLE || pr == ICmpInst::ICMP_ULE;
          bool gt = pr == ICmpInst::ICMP_SGT || pr == ICmpInst::ICMP_UGT, ge = pr == ICmpInst::ICMP_SGE || pr == ICmpInst::ICMP_UGE;
          bool uc = ICmpInst::isUnsigned(pr);
          if (pr == ICmpInst::ICMP_NE && match0(Bv) && down && d->lo == -1) return "counts down to zero";
          if (!(up && (lt || le)) && !(down && (gt || ge))) continue;
          if (ptr || w >= 64) return up ? "counts up to a bound" : "counts down to a bound";
          if (!Bv->getType()->isIntegerTy()) continue;
          // the next value still fits the variable
          const Value *A = IC->getOperand(k);
          bool u = uc;
          for (const Value *q = A; auto *Ci = dyn_cast<CastInst>(q); q = Ci->getOperand(0)) {
            if (Ci->getOperand(0)->getType()->isIntegerTy(w) && isa<ZExtInst>(Ci)) u = true;
            if (Ci->getOperand(0)->getType()->isIntegerTy(w) && isa<SExtInst>(Ci)) u = false;
          }
          CR b = range(IC, Bv);
          if (b.isEmptySet()) return "not repeated";
          I bmax = uc ? uns(b.getUnsignedMax()) : sgn(b.getSignedMax()), bmin = uc ? uns(b.getUnsignedMin()) : sgn(b.getSignedMin());
          I tmax = u ? ((I)1 << w) - 1 : ((I)1 << (w - 1)) - 1, tmin = u ? 0 : -((I)1 << (w - 1));
          if (up && bmax - (lt ? 1 : 0) - dA->lo + d->hi <= tmax) return "counts up to a bound";
          if (down && bmin + (gt ? 1 : 0) - dA->hi + d->lo >= tmin) return "counts down to a bound";
        }
      }
      // ends when a function of the counter returns null, which it does from some value on
      if (up && !ptr)
        for (auto &cc : conds) {
          auto pr = cc.second ? cc.first->getPredicate() : cc.first->getInversePredicate();
          auto *Cl = dyn_cast<CallBase>(stripCasts(cc.first->getOperand(0)));
          if (!Cl || pr != ICmpInst::ICMP_NE || !isa<Constant>(cc.first->getOperand(1)) || !cast<Constant>(cc.first->getOperand(1))->isNullValue()) continue;
          auto *G = Cl->getCalledFunction();
          if (!G || G->isDeclaration()) continue;
          for (unsigned i = 0; i < Cl->arg_size() && i < G->arg_size(); i++) {
            if (stripCasts(Cl->getArgOperand(i)) != &Ph) continue;
            unsigned gw = G->getArg(i)->getType()->getIntegerBitWidth();
            Walk W(P, *G, MR);
            bool bad = false, any = false;
            W.ret = [&](const ReturnInst *RI, WState &S) { any = true; if (!W.isZero(S, RI->getReturnValue())) bad = true; };
            WState S;
            S.fact.insert_or_assign(G->getArg(i), CR(APInt(gw, 1000), APInt::getSignedMaxValue(gw)));
            W.run(S);
            if (any && !bad) return "ends when the table it enumerates ends";
          }
        }
    }
    return "";
  }

  // does every successful return of F come after reading at least one byte?
  bool consumesCall(const CallBase *Cl, Walk &W, const WState &S) {
    if (isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl) || !Cl->getType()->isIntegerTy()) return false;
    bool unk = false;
    auto cs = targets(Cl, &unk);
    if (unk || cs.empty()) return false;
    for (auto *G : cs) {
      if (G->getName() == "EAS_HWReadFile") { if (!W.nonZero(S, Cl->getArgOperand(3))) return false; }
      else if (!consumes(G)) return false;
    }
    return true;
  }
  bool consumes(const Function *F) {
    if (F->isDeclaration() || returnTypedef(F) != "EAS_RESULT") return false;
    auto it = cons.find(F);
    if (it != cons.end()) return it->second == 1;
    cons[F] = -1;
    Walk W(P, *F, MR);
    std::vector<const CallBase *> calls;
    bool bad = false, any = false;
    bool event = eventHandlers.count(F);
    std::vector<const LoadInst *> ticks, states;
    if (event)
      for (auto &In : instructions(*F))
        if (auto *L = dyn_cast<LoadInst>(&In)) {
          auto f = decompose(L->getPointerOperand()).field(P);
          if (f.size() > 6 && f.substr(f.size() - 6) == ".ticks") ticks.push_back(L);
          if (f.size() > 6 && f.substr(f.size() - 6) == ".state") states.push_back(L);
        }
    W.inst = [&](const Instruction *In, WState &S, std::vector<WState> &) {
      if (auto *Cl = dyn_cast<CallBase>(In); Cl && consumesCall(Cl, W, S)) note(S, calls, Cl);
      if (auto *St = dyn_cast<StoreInst>(In); St && event) { // the track is marked as ended
        auto f = decompose(St->getPointerOperand()).field(P);
        auto *K = dyn_cast<ConstantInt>(St->getValueOperand());
        if (f.size() > 6 && f.substr(f.size() - 6) == ".ticks" && K && K->equalsInt(0xffffffff)) S.ts = {-1};
      }
      return true;
    };
    W.ret = [&](const ReturnInst *RI, WState &S) {
      if (W.nonZero(S, RI->getReturnValue())) return;
      any = true;
      if (S.ts == std::vector<int>{-1}) return;
      for (auto *L : ticks) { auto r = W.get(S, L); if (r.isSingleElement() && r.getSingleElement()->getZExtValue() == 0xffffffff) return; }
      for (auto *L : states) { auto r = W.get(S, L); if (r.getUnsignedMin().uge(6)) return; } // not playing: the caller stops asking
      for (int k : S.ts) if (W.isZero(S, calls[k]) || W.canon(S, RI->getReturnValue()) == calls[k]) return;
      bad = true;
    };
    W.run(WState());
    cons[F] = any && !bad;
    return cons[F] == 1;
  }
  std::set<const Function *> eventHandlers; // one event of a music file per call
  static void note(WState &S, std::vector<const CallBase *> &calls, const CallBase *Cl) {
    if (S.ts == std::vector<int>{-1}) return;
    int k = std::find(calls.begin(), calls.end(), Cl) - calls.begin();
    if (k == (int)calls.size()) calls.push_back(Cl);
    if (std::find(S.ts.begin(), S.ts.end(), k) == S.ts.end()) { S.ts.push_back(k); std::sort(S.ts.begin(), S.ts.end()); }
  }
  bool mayseek(const CallBase *Cl) {
    auto cs = targets(Cl);
    for (auto *G : cs) {
      auto it = seeks.find(G);
      if (it == seeks.end()) {
        bool s = false;
        for (auto &kv : cg.reach({G})) s |= kv.first->getName() == "EAS_HWFileSeek" || kv.first->getName() == "EAS_HWFileSeekOfs";
        it = seeks.insert({G, s}).first;
      }
      if (it->second) return true;
    }
    return false;
  }
  // event handlers only ever move a track's position forward
  std::map<const Function *, bool> fwd;
  long seeksChecked = 0;
  bool playsOn(const CallBase *Cl) {
    if (Cl->getCalledFunction()) return false;
    auto cs = targets(Cl);
    for (auto *G : cs) {
      if (!eventHandlers.count(G) || !consumes(G)) return false;
      auto it = fwd.find(G);
      if (it == fwd.end()) {
        bool ok = true;
        for (auto &kv : cg.reach({G})) ok &= forward(kv.first);
        it = fwd.insert({G, ok}).first;
      }
      if (!it->second) return false;
    }
    return !cs.empty();
  }
  bool forward(const Function *F) {
    std::vector<const CallBase *> sk;
    for (auto &e : cg.out[F]) if (e.first->getName() == "EAS_HWFileSeek" || e.first->getName() == "EAS_HWFileSeekOfs") sk.push_back(e.second);
    if (sk.empty()) return true;
    Walk W(P, *F, MR);
    bool bad = false;
    const Function *prev = cur;
    if (!E->analysed(F)) return false;
    enter(*F);
    W.inst = [&](const Instruction *In, WState &S, std::vector<WState> &) {
      auto *Cl = dyn_cast<CallBase>(In);
      if (!Cl || std::find(sk.begin(), sk.end(), Cl) == sk.end()) return true;
      const Value *a = W.canon(S, Cl->getArgOperand(2));
      auto nonneg = [&](const Value *v) { return W.get(S, v).isAllNonNegative(); };
      auto isPos = [&](const Value *v) { // read from a cell EAS_HWFilePos filled for this file
        auto *L = dyn_cast<LoadInst>(W.canon(S, v));
        if (!L) return false;
        bool src = false, other = false;
        for (auto *U : decompose(L->getPointerOperand()).root->users()) {
          if (auto *C2 = dyn_cast<CallBase>(U)) {
            if (isDbg(C2) || isa<IntrinsicInst>(C2)) continue;
            if (calleeName(C2) == "EAS_HWFilePos" && W.canon(S, C2->getArgOperand(1)) == W.canon(S, Cl->getArgOperand(1))) src = true;
            else other = true;
          }
        }
        return src && !other;
      };
      bool ok = false;
      if (calleeName(Cl) == "EAS_HWFileSeekOfs") ok = nonneg(a);
      else if (isPos(a)) ok = true;
      else if (auto *B = dyn_cast<BinaryOperator>(a); B && B->getOpcode() == Instruction::Add)
        for (int k = 0; k < 2; k++) ok |= isPos(B->getOperand(k)) && (nonneg(B->getOperand(1 - k)) || range(B, B->getOperand(1 - k)).isAllNonNegative());
      seeksChecked++;
      if (!ok && !bad) {
        bad = true;
        R.add(F->getName().str() + ":seek", loc(Cl), "playing an event may move the position in the file backwards: the same events may be played for ever", Walk::path(S));
      }
      return true;
    };
    W.run(WState());
    if (prev) enter(*prev);
    return !bad;
  }
  // an operation that every registered table provides
  std::map<const LoadInst *, bool> set_;
  bool alwaysSet(const LoadInst *L) {
    if (!L->getType()->isPointerTy()) return false;
    auto it = set_.find(L);
    if (it != set_.end()) return it->second;
    bool r = false;
    auto k = ModRef::fieldKey(L->getPointerOperand());
    if (auto h = k.find('#'); h != std::string::npos)
      if (auto t = P.slotTables.find(k.substr(0, h)); t != P.slotTables.end()) {
        unsigned idx = std::stoul(k.substr(h + 1));
        r = true;
        bool any = false;
        for (auto *G : t->second) {
          if (G->use_empty()) continue;
          auto *In = G->hasInitializer() ? G->getInitializer()->getAggregateElement(idx) : nullptr;
          any = true;
          r &= G->isConstant() && In && !In->isNullValue();
        }
        r &= any;
      }
    return set_[L] = r;
  }
  // a field that every round lowers by the same amount, tested to be at least that much
  std::string memRule(const Function &F, const Loop *L, const DominatorTree &DT) {
    for (auto &cc : continueConds(L, DT)) {
      auto pr = cc.second ? cc.first->getPredicate() : cc.first->getInversePredicate();
      auto *K = dyn_cast<ConstantInt>(cc.first->getOperand(1));
      if (!K) continue;
      const Value *v = cc.first->getOperand(0);
      I least;
      if (auto *B = dyn_cast<BinaryOperator>(v); B && B->getOpcode() == Instruction::And && isa<ConstantInt>(B->getOperand(1)) && pr == ICmpInst::ICMP_NE && K->isZero()) {
        least = uns(cast<ConstantInt>(B->getOperand(1))->getValue());
        least &= -least;
        v = B->getOperand(0);
      } else if (pr == ICmpInst::ICMP_UGT) least = uns(K->getValue()) + 1;
      else if (pr == ICmpInst::ICMP_NE && K->isZero()) least = 1;
      else continue;
      const Value *u = stripCasts(v);
      std::vector<const LoadInst *> ld;
      if (auto *Ph = dyn_cast<PHINode>(u)) { for (auto &o : Ph->incoming_values()) if (auto *l = dyn_cast<LoadInst>(o)) ld.push_back(l); }
      else if (auto *l = dyn_cast<LoadInst>(u)) ld.push_back(l);
      std::string f;
      for (auto *l : ld) f = ModRef::fieldKey(l->getPointerOperand());
      if (auto *Ph = dyn_cast<PHINode>(u)) // the value stored last round
        for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
          if (auto *b = dyn_cast<BinaryOperator>(Ph->getIncomingValue(i)); b && L->contains(b))
            for (auto *U : b->users()) if (auto *St = dyn_cast<StoreInst>(U)) f = ModRef::fieldKey(St->getPointerOperand());
      if (f.empty()) continue;
      bool ok = true;
      const StoreInst *down = nullptr;
      for (auto *B : L->blocks())
        for (auto &In : *B) {
          if (auto *St = dyn_cast<StoreInst>(&In); St && ModRef::fieldKey(St->getPointerOperand()) == f) {
            auto *b = dyn_cast<BinaryOperator>(St->getValueOperand());
            auto *l = b ? dyn_cast<LoadInst>(b->getOperand(0)) : nullptr;
            auto *k = b ? dyn_cast<ConstantInt>(b->getOperand(1)) : nullptr;
            I amt = 0;
            if (k && b->getOpcode() == Instruction::Sub) amt = uns(k->getValue());
            if (k && b->getOpcode() == Instruction::Add) amt = -sgn(k->getValue());
            ok &= !down && l && ModRef::fieldKey(l->getPointerOperand()) == f && decompose(l->getPointerOperand()).root == decompose(St->getPointerOperand()).root && amt >= 1 && amt <= least;
            down = St;
          } else if (auto *Cl = dyn_cast<CallBase>(&In); Cl && !isDbg(Cl) && !isField0(Cl) && !isa<IntrinsicInst>(Cl)) {
            bool unk = false;
            for (auto *G : targets(Cl, &unk)) if (MR.mods[G].count(f)) ok = false;
          }
        }
      ok &= down != nullptr;
      if (ok) for (auto *l : latches(L)) ok &= DT.dominates(down->getParent(), l);
      if (ok) return "counts a field down";
    }
    return "";
  }
  std::vector<std::string> why;
  std::string inputRule(const Function &F, const Loop *L) {
    why.clear();
    std::vector<const CallBase *> sk;
    for (auto *B : L->blocks())
      for (auto &In : *B)
        if (auto *Cl = dyn_cast<CallBase>(&In); Cl && !isDbg(Cl) && !isField0(Cl) && !isa<IntrinsicInst>(Cl) && seen.count(B) && mayseek(Cl) && !playsOn(Cl)) sk.push_back(Cl);
    // reads through a handle of its own, that none of the calls that seek is given
    auto ownHandle = [&](const CallBase *Cl) {
      for (unsigned i = 0; i < Cl->arg_size(); i++) {
        auto *Ld = dyn_cast<LoadInst>(Cl->getArgOperand(i));
        auto *A = Ld ? dyn_cast<AllocaInst>(Ld->getPointerOperand()) : nullptr;
        if (!A || !A->getAllocatedType()->isPointerTy()) continue;
        bool dup = false, other = false;
        for (auto *U : A->users()) {
          if (auto *l = dyn_cast<LoadInst>(U)) {
            for (auto *V : l->users())
              if (!isDbg(cast<Instruction>(V)) && (!isa<CallBase>(V) || std::find(sk.begin(), sk.end(), V) != sk.end())) other |= !isa<ICmpInst>(V);
          } else if (auto *c = dyn_cast<CallBase>(U)) {
            if (isDbg(c) || isa<IntrinsicInst>(c)) continue;
            if (calleeName(c) == "EAS_HWDupHandle") dup = true; else other = true;
          } else if (auto *St = dyn_cast<StoreInst>(U)) other |= !isa<Constant>(St->getValueOperand());
        }
        if (dup && !other) return true;
      }
      return false;
    };
    if (!sk.empty()) {
      bool own = false;
      for (auto *B : L->blocks()) for (auto &In : *B) if (auto *Cl = dyn_cast<CallBase>(&In); Cl && !isDbg(Cl)) own |= ownHandle(Cl);
      if (!own) { why = {"moves the file position at " + loc(sk[0])}; return ""; }
    }
    Walk W(P, F, MR);
    std::vector<const CallBase *> calls;
    bool bad = false, any = false;
    W.inst = [&](const Instruction *In, WState &S, std::vector<WState> &) {
      if (auto *Ld = dyn_cast<LoadInst>(In); Ld && alwaysSet(Ld)) W.refine(S, Ld, CR(APInt(64, 1), APInt::getZero(64)));
      if (!L->contains(In)) return true;
      if (auto *Cl = dyn_cast<CallBase>(In); Cl && consumesCall(Cl, W, S) && (sk.empty() || ownHandle(Cl))) note(S, calls, Cl);
      return true;
    };
    W.edge = [&](const BasicBlock *a, const BasicBlock *b, WState &S) {
      if (b != L->getHeader()) { if (L->contains(a) && !L->contains(b)) S.ts.clear(); return; }
      if (L->contains(a)) {
        any = true;
        bool ok = false, before = false; // at most one round in a row may do without, to find the exit
        for (int k : S.ts) if (k == -2) before = true; else ok |= W.isZero(S, calls[k]);
        if (!ok && before && !bad) bad = true, why = Walk::path(S);
        S.ts.clear();
        if (!ok) S.ts.push_back(-2);
        return;
      }
      S.ts.clear();
    };
    W.run(WState());
    return any && !bad ? "reads on in the input" : "";
  }
};
} // namespace

static void anLoops(Ctx &C, Report &R) {
  Program &P = C.P;
  Loops A(C, R);
  A.E = solveRanges(C, R);
  long n = 0, dead = 0;
  std::map<std::string, long> how;
  TargetLibraryInfoImpl TLII(Triple(P.M->getTargetTriple()));
  static const std::map<std::string, std::string> listed = {
      {"WT_Interpolate", "wraps inside a sample loop, which is at least one sample long"},
      {"VMStartNote", "walks the regions of a program to the one marked last"}};
  for (auto &e : A.cg.out)
    for (auto &x : e.second) if (!x.second->getCalledFunction() && slotOf(P, x.second->getCalledOperand()).find(".pfEvent") != std::string::npos && A.inUse(x.first, x.second)) A.eventHandlers.insert(x.first);
  for (Function &F : *P.M) {
    if (F.isDeclaration() || !A.E->analysed(&F)) continue;
    if (!A.live.count(&F)) { R.note("not reachable from the API", F.getName().str()); continue; }
    F.removeFnAttr(Attribute::MustProgress);
    F.removeFnAttr(Attribute::WillReturn);
    TargetLibraryInfo TLI(TLII);
    AssumptionCache AC(F);
    DominatorTree DT(F);
    LoopInfo LI(DT);
    for (auto *L : LI.getLoopsInPreorder()) for (auto *B : A.latches(L)) const_cast<Instruction *>(B->getTerminator())->setMetadata(LLVMContext::MD_loop, nullptr);
    ScalarEvolution SE(F, TLI, AC, DT, LI);
    for (auto *L : LI.getLoopsInPreorder()) {
      A.enter(F);
      if (!A.seen.count(L->getHeader())) { dead++; continue; }
      n++;
      const Instruction *at = L->getHeader()->getTerminator();
      for (auto &In : *L->getHeader()) if (!isDbg(&In) && In.getDebugLoc() && In.getDebugLoc().getLine()) { at = &In; break; }
      std::string h;
      if (!isa<SCEVCouldNotCompute>(SE.getSymbolicMaxBackedgeTakenCount(L))) h = "counted";
      if (h.empty()) h = A.ivRule(L, DT);
      if (h.empty()) h = A.memRule(F, L, DT);
      if (h.empty()) h = A.inputRule(F, L);
      if (h.empty())
        for (auto &l : listed) if (srcFunc(at) == l.first) h = "listed: " + l.second;
      if (h.empty()) {
        R.add(F.getName().str() + ":" + srcFunc(at), loc(at), "no progress towards an exit is guaranteed on every round of this loop", A.why);
        continue;
      }
      how[h]++;
      if (h != "counted") R.note(h, loc(at) + " in " + F.getName().str());
    }
  }
  R.stats["functions"] = A.live.size();
  R.stats["loops"] = n;
  R.stats["unreachable"] = dead;
  R.stats["event_handlers"] = A.eventHandlers.size();
  R.stats["seeks_in_events"] = A.seeksChecked;
  for (auto &kv : how) R.stats[kv.first] = kv.second;
}
static Reg l0("loops", anLoops, NormOpts());
