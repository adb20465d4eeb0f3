#include "ranges.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/PatternMatch.h"
#include <algorithm>
namespace sv {
using CR = ConstantRange;
static bool isInt(const Value *V) { return V->getType()->isIntegerTy() && V->getType()->getIntegerBitWidth() <= 64; }
static unsigned bw(const Value *V) { return V->getType()->getIntegerBitWidth(); }
static CR full(unsigned b) { return CR::getFull(b); }

template <class M, class K> static bool joinFact(M &m, const K &k, const CR &r, bool widenNow, bool *bad) {
  auto it = m.find(k);
  if (it == m.end()) {
    m.insert(std::make_pair(k, r));
    return true;
  }
  if (it->second.getBitWidth() != r.getBitWidth()) {
    *bad = true;
    return false;
  }
  if (it->second.contains(r)) return false;
  CR u = it->second.unionWith(r, CR::Smallest);
  if (widenNow) u = Ranges::widenCR(it->second, u);
  it->second = u;
  return true;
}

Ranges::Ranges(Program &P, const std::set<std::string> &roots) : P(P) {
  for (Function &F : *P.M) {
    if (F.isDeclaration()) continue;
    bool called = false, otherAddr = false;
    for (User *U : F.users()) {
      if (auto *C = dyn_cast<CallBase>(U)) {
        if (C->getCalledOperand() == &F) {
          called = true;
          continue;
        }
        otherAddr = true;
      } else if (isa<Instruction>(U))
        otherAddr = true; // address escapes outside the constant tables
    }
    bool inSlot = false;
    for (auto &kv : P.slotTargets)
      for (auto *T : kv.second)
        if (T == &F) inSlot = true;
    if (roots.count(F.getName().str()) || otherAddr) {
      rootFns.insert(&F);
      live.insert(&F);
    }
  }
  prepareFields();
  computeMods();
}

void Ranges::assumeInit(const std::string &st, const std::string &member) {
  auto *T = structByName(P, st);
  if (!T) return;
  for (unsigned i = 0; i < T->getNumElements(); i++)
    if (fieldName(P, st, i, T) == member) initFirst.insert(st + "#" + std::to_string(i));
}

void Ranges::disjunct(const DisjSpec &sp) {
  auto *T = structByName(P, sp.st);
  if (!T) return;
  auto key = [&](const std::string &n) -> std::string {
    for (unsigned i = 0; i < T->getNumElements(); i++)
      if (fieldName(P, sp.st, i, T) == n) return sp.st + "#" + std::to_string(i);
    return "";
  };
  dj = Disj();
  dj.spec = sp;
  for (auto &c : sp.ctl) {
    dj.ctl.push_back(key(c.first));
    if (dj.ctl.back().empty()) return;
  }
  for (auto &d : sp.data) {
    dj.data.push_back(key(d));
    if (dj.data.back().empty()) return;
  }
  // the function that runs the state machine: the one with most stores to the control fields
  unsigned best = 0;
  std::map<const Function *, unsigned> cnt;
  for (Function &F : *P.M)
    for (Instruction &I : instructions(F))
      if (auto *St = dyn_cast<StoreInst>(&I))
        if (isInt(St->getValueOperand())) {
          int id = addrOf(St->getPointerOperand(), bw(St->getValueOperand()));
          if (id >= 0 && std::find(dj.ctl.begin(), dj.ctl.end(), addrs[id].key) != dj.ctl.end() && isa<Argument>(addrs[id].root)) {
            if (++cnt[&F] > best) best = cnt[&F], dj.F = &F;
          }
        }
  if (!dj.F) return;
  for (const Instruction &I : instructions(*dj.F)) {
    const Value *p = getLoadStorePointerOperand(&I);
    if (!p) continue;
    Type *t = isa<LoadInst>(&I) ? I.getType() : cast<StoreInst>(&I)->getValueOperand()->getType();
    if (!t->isIntegerTy()) continue;
    int id = addrOf(p, t->getIntegerBitWidth());
    if (id < 0) continue;
    for (auto &ks : {dj.ctl, dj.data})
      if (std::find(ks.begin(), ks.end(), addrs[id].key) != ks.end()) {
        if (!isa<Argument>(addrs[id].root) || addrs[id].bits != 8 || (dj.root && dj.root != addrs[id].root) || (dj.ids.count(addrs[id].key) && dj.ids[addrs[id].key] != (unsigned)id)) {
          dj.F = nullptr;
          return;
        }
        dj.root = addrs[id].root;
        dj.ids[addrs[id].key] = id;
      }
  }

}

void Ranges::openStruct(const StructType *T, std::set<const StructType *> &seen) {
  if (!seen.insert(T).second) return;
  std::string n = structName(T);
  for (unsigned i = 0; i < T->getNumElements(); i++) {
    openFields.insert(n + "#" + std::to_string(i));
    Type *E = T->getElementType(i);
    while (auto *A = dyn_cast<ArrayType>(E)) E = A->getElementType();
    if (auto *S = dyn_cast<StructType>(E)) openStruct(S, seen);
  }
}

std::string Ranges::key(const Value *ptr, bool *ok) {
  Addr A = decompose(ptr);
  *ok = false;
  bool arith = false;
  for (auto it = A.steps.rbegin(); it != A.steps.rend(); ++it) {
    if (it->k == Step::Field) {
      if (arith) { // pointer arithmetic stays inside an array member
        auto *S = structByName(P, it->st);
        if (!S || !S->getElementType(it->idx)->isArrayTy()) return "";
      }
      *ok = true;
      return it->st + "#" + std::to_string(it->idx);
    }
    if (it->k == Step::Index && it->arrLen == 0) arith = true;
  }
  return "";
}

// all keys a pointer may denote (through phis / selects)
void Ranges::keys(const Value *ptr, std::set<std::string> &out, std::set<const Value *> &roots) {
  std::set<const Value *> seen;
  std::vector<const Value *> w{ptr};
  while (!w.empty()) {
    const Value *v = w.back();
    w.pop_back();
    if (!seen.insert(v).second) continue;
    bool ok;
    std::string k = key(v, &ok);
    if (ok) {
      out.insert(k);
      continue;
    }
    Addr A = decompose(v);
    if (auto *Ph = dyn_cast<PHINode>(A.root)) {
      for (auto &u : Ph->incoming_values()) w.push_back(u);
      continue;
    }
    if (auto *S = dyn_cast<SelectInst>(A.root)) {
      w.push_back(S->getTrueValue());
      w.push_back(S->getFalseValue());
      continue;
    }
    roots.insert(A.root);
  }
}

// A field is "open" when something other than a direct load/store can write it.
void Ranges::prepareFields() {
  std::map<const Value *, std::set<const StructType *>> typesOf; // pointer root -> struct types it is used as
  for (Function &F : *P.M)
    for (Instruction &I : instructions(F)) {
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        if (auto *S = dyn_cast<StructType>(G->getSourceElementType())) typesOf[G->getPointerOperand()].insert(S);
      if (isField0(&I)) {
        auto *C = cast<CallInst>(&I);
        if (auto *S = structByName(P, C->getCalledFunction()->getName().substr(10).str())) typesOf[C->getArgOperand(0)].insert(S);
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        Type *E = A->getAllocatedType();
        while (auto *AT = dyn_cast<ArrayType>(E)) E = AT->getElementType();
        if (auto *S = dyn_cast<StructType>(E)) typesOf[A].insert(S);
      }
    }
  auto ptrTypes = [&](const Value *p) {
    std::set<const StructType *> r;
    if (auto it = typesOf.find(p); it != typesOf.end()) r = it->second;
    Addr A = decompose(p);
    if (!A.steps.empty()) {
      auto &s = A.steps.back();
      Type *E = nullptr;
      if (s.k == Step::Index)
        E = s.elemTy;
      else if (auto *S = structByName(P, s.st))
        E = S->getElementType(s.idx);
      while (E && isa<ArrayType>(E)) E = cast<ArrayType>(E)->getElementType();
      if (E)
        if (auto *S = dyn_cast<StructType>(E)) r.insert(S);
    }
    return r;
  };
  for (Function &F : *P.M)
    for (Instruction &I : instructions(F)) {
      auto *C = dyn_cast<CallBase>(&I);
      if (!C || isa<DbgInfoIntrinsic>(C) || isField0(C)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(C))
        if (II->isLifetimeStartOrEnd()) continue;
      std::string n = calleeName(C);
      bool set = n == "EAS_HWMemSet" || n.rfind("llvm.memset", 0) == 0 || n == "memset";
      bool cpy = n == "EAS_HWMemCpy" || n.rfind("llvm.memcpy", 0) == 0 || n == "memcpy" || n.rfind("llvm.memmove", 0) == 0;
      bool cmp = n == "EAS_HWMemCmp" || n == "memcmp";
      if (cmp) continue;
      if (set) {
        auto *v = dyn_cast<ConstantInt>(C->getArgOperand(1));
        if (v && v->isZero()) continue; // zero is always part of a field's invariant
        std::set<const StructType *> seen;
        for (auto *S : ptrTypes(C->getArgOperand(0))) openStruct(S, seen);
        bool ok;
        std::string k = key(C->getArgOperand(0), &ok);
        if (ok) openFields.insert(k);
        continue;
      }
      if (cpy) {
        auto d = ptrTypes(C->getArgOperand(0)), s = ptrTypes(C->getArgOperand(1));
        bool same = false;
        for (auto *a : d)
          for (auto *b : s)
            if (structName(a) == structName(b)) same = true;
        if (!same) {
          std::set<const StructType *> seen;
          for (auto *S : d) openStruct(S, seen);
          bool ok;
          std::string k = key(C->getArgOperand(0), &ok);
          if (ok) openFields.insert(k);
        }
        continue;
      }
      // address of a scalar field handed to a call
      bool unk;
      auto cs = callees(P, C, &unk);
      for (unsigned i = 0; i < C->arg_size(); i++) {
        Value *a = C->getArgOperand(i);
        if (!a->getType()->isPointerTy()) continue;
        Addr A = decompose(a);
        if (A.steps.empty() || A.steps.back().k != Step::Field) {
          if (!A.steps.empty() && A.steps.back().k == Step::Index && A.steps.back().arrLen) {
            // element of an int array field
            bool ok;
            std::string k = key(a, &ok);
            if (ok && A.steps.back().elemTy->isIntegerTy()) openFields.insert(k);
          }
          continue;
        }
        auto *S = structByName(P, A.steps.back().st);
        Type *E = S ? S->getElementType(A.steps.back().idx) : nullptr;
        if (E && E->isArrayTy()) {
          while (isa<ArrayType>(E)) E = cast<ArrayType>(E)->getElementType();
          if (!E->isIntegerTy()) continue;
        }
        if (E && !E->isIntegerTy()) continue;
        bool ok;
        std::string k = key(a, &ok);
        bool known = !unk && !cs.empty();
        for (auto *G : cs)
          if (G->isDeclaration() || G->isVarArg() || i >= G->arg_size()) known = false;
        // Known callee: its stores through the argument are collected (argCell);
        // stays closed unless the callee forwards the pointer.
        std::function<bool(const Value *, int)> simple = [&](const Value *arg, int d) {
          if (d > 4) return false;
          for (const User *U : arg->users()) {
            if (isa<LoadInst>(U) || isa<DbgInfoIntrinsic>(U) || isa<ICmpInst>(U)) continue;
            if (auto *St = dyn_cast<StoreInst>(U)) {
              if (St->getPointerOperand() == arg && St->getValueOperand()->getType() == (E ? E : St->getValueOperand()->getType())) continue;
              return false;
            }
            if (auto *CB = dyn_cast<CallBase>(U)) {
              auto *G = CB->getCalledFunction();
              if (!G || G->isDeclaration() || G->isVarArg()) return false;
              for (unsigned j = 0; j < CB->arg_size(); j++)
                if (CB->getArgOperand(j) == arg && !simple(G->getArg(j), d + 1)) return false;
              continue;
            }
            return false;
          }
          return true;
        };
        if (known)
          for (auto *G : cs)
            if (!simple(G->getArg(i), 0)) known = false;
        if (!known && ok) openFields.insert(k);
      }
    }
}

void Ranges::joinField(const std::string &k, const CR &r0) {
  CR r = r0;
  if (!W->fieldR.count(k) && !initFirst.count(k)) r = CR(APInt::getZero(r.getBitWidth())).unionWith(r, CR::Smallest);
  bool bad = false;
  if (joinFact(W->fieldR, k, r, widen && round > 3, &bad)) changed = true;
  if (bad && openFields.insert(k).second) changed = true;
  if (dj.F && !disjOwn) disjForeign(k, r0);
}

void Ranges::initGlobals() {
  initR.clear();
  auto joinField = [&](const std::string &k, const CR &r) {
    this->joinField(k, r);
    auto it = initR.find(k);
    if (it == initR.end())
      initR.emplace(k, r);
    else if (it->second.getBitWidth() == r.getBitWidth())
      it->second = it->second.unionWith(r, CR::Smallest);
  };
  for (GlobalVariable &G : P.M->globals()) {
    if (!G.hasInitializer()) continue;
    // initial values of struct fields in globals
    std::function<void(const Constant *)> walk = [&](const Constant *C) {
      if (auto *S = dyn_cast<ConstantStruct>(C)) {
        for (unsigned i = 0; i < S->getNumOperands(); i++) {
          const Constant *op = S->getOperand(i);
          std::string k = structName(S->getType()) + "#" + std::to_string(i);
          if (auto *CI = dyn_cast<ConstantInt>(op)) {
            if (CI->getBitWidth() <= 64) joinField(k, CR(CI->getValue()));
          } else if (auto *D = dyn_cast<ConstantDataSequential>(op)) {
            if (D->getElementType()->isIntegerTy())
              for (unsigned j = 0; j < D->getNumElements(); j++) joinField(k, CR(D->getElementAsAPInt(j)));
          } else
            walk(op);
        }
      } else if (isa<ConstantArray>(C))
        for (auto &op : C->operands()) walk(cast<Constant>(op));
    };
    walk(G.getInitializer());
  }
}

CR Ranges::fieldRange(const std::string &k, unsigned b) {
  if (openFields.count(k)) return full(b);
  auto it = Rd->fieldR.find(k);
  if (it == Rd->fieldR.end()) return CR(APInt::getZero(b));
  if (it->second.getBitWidth() != b) return full(b);
  return it->second;
}

CR Ranges::widenCR(const CR &o, const CR &n) {
  unsigned b = o.getBitWidth();
  if (o.isFullSet() || n.isFullSet()) return full(b);
  static const int64_t th[] = {INT64_MIN, -2147483648LL, -32768, -256, -128, -64, -1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 2147483647LL, 4294967295LL, INT64_MAX};
  APInt lo = o.getSignedMin(), hi = o.getSignedMax();
  APInt nlo = n.getSignedMin(), nhi = n.getSignedMax();
  if (nlo.slt(lo)) {
    APInt c = APInt::getSignedMinValue(b);
    for (int64_t t : th) {
      APInt a(64, (uint64_t)t, true);
      if (!a.isSignedIntN(b)) continue;
      a = a.sextOrTrunc(b);
      if (a.sle(nlo)) c = a;
    }
    lo = c;
  }
  if (nhi.sgt(hi)) {
    APInt c = APInt::getSignedMaxValue(b);
    for (int i = (int)(sizeof th / sizeof *th) - 1; i >= 0; i--) {
      APInt a(64, (uint64_t)th[i], true);
      if (!a.isSignedIntN(b)) continue;
      a = a.sextOrTrunc(b);
      if (a.sge(nhi)) c = a;
    }
    hi = c;
  }
  return CR::getNonEmpty(lo, hi + 1);
}

std::optional<CR> Ranges::defRange(const Value *V) {
  if (auto *C = dyn_cast<ConstantInt>(V)) return CR(C->getValue());
  if (auto *A = dyn_cast<Argument>(V)) {
    if (rootFns.count(A->getParent())) return full(bw(V));
    auto it = Rd->argR.find(A);
    if (it == Rd->argR.end()) return std::nullopt;
    return it->second;
  }
  if (isa<Instruction>(V)) {
    if (!isInt(V)) return full(bw(V)); // wider than tracked
    auto it = R.find(V);
    if (it == R.end()) return std::nullopt; // bottom
    return it->second;
  }
  return full(bw(V));
}

CR Ranges::at(const Value *V, const BState &S, int depth) {
  auto d = defRange(V);
  unsigned b = bw(V);
  if (!d) return CR::getEmpty(b);
  CR r = *d;
  auto it = S.ref.find(V);
  if (it != S.ref.end()) r = r.intersectWith(it->second);
  if (depth > 0)
    if (auto *I = dyn_cast<Instruction>(V))
      if (isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<FreezeInst>(I)) {
        CR e = eval(I, S, depth - 1);
        r = r.intersectWith(e);
      } else if (auto *Ph = dyn_cast<PHINode>(I))
        r = r.intersectWith(phiBound(Ph, S));
  return r;
}

// ---- loop-header phis: value = init + iterations * delta --------------------
static bool deltaOf(const Value *V, const PHINode *H, const Loop *L, const DataLayout &DL, std::map<const Value *, std::pair<int64_t, int64_t>> &memo, std::set<const Value *> &act, int64_t &lo, int64_t &hi, int depth = 0) {
  if (V == H) {
    lo = hi = 0;
    return true;
  }
  auto it = memo.find(V);
  if (it != memo.end()) {
    lo = it->second.first;
    hi = it->second.second;
    return true;
  }
  auto *I = dyn_cast<Instruction>(V);
  if (!I || !L->contains(I) || depth > 40) return false;
  if (!act.insert(V).second) return false; // inner loop cycle
  bool ok = false;
  if (auto *B = dyn_cast<BinaryOperator>(I)) {
    auto *C = dyn_cast<ConstantInt>(B->getOperand(1));
    if (C && C->getBitWidth() <= 64 && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
      int64_t c = C->getSExtValue();
      if (B->getOpcode() == Instruction::Sub) c = -c;
      if (c > -100000 && c < 100000 && deltaOf(B->getOperand(0), H, L, DL, memo, act, lo, hi, depth + 1)) {
        lo += c;
        hi += c;
        ok = true;
      }
    }
  } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
    APInt off(64, 0);
    if (G->accumulateConstantOffset(DL, off) && deltaOf(G->getPointerOperand(), H, L, DL, memo, act, lo, hi, depth + 1)) {
      lo += off.getSExtValue();
      hi += off.getSExtValue();
      ok = true;
    }
  } else if (auto *Ph = dyn_cast<PHINode>(I)) {
    bool first = true;
    ok = true;
    for (auto &u : Ph->incoming_values()) {
      int64_t a, b;
      if (u == Ph) continue;
      if (!deltaOf(u, H, L, DL, memo, act, a, b, depth + 1)) {
        ok = false;
        break;
      }
      lo = first ? a : std::min(lo, a);
      hi = first ? b : std::max(hi, b);
      first = false;
    }
    if (first) ok = false;
  } else if (auto *Sel = dyn_cast<SelectInst>(I)) {
    int64_t a, b, c, d;
    if (deltaOf(Sel->getTrueValue(), H, L, DL, memo, act, a, b, depth + 1) && deltaOf(Sel->getFalseValue(), H, L, DL, memo, act, c, d, depth + 1)) {
      lo = std::min(a, c);
      hi = std::max(b, d);
      ok = true;
    }
  }
  act.erase(V);
  if (ok) memo[V] = {lo, hi};
  return ok;
}

void Ranges::computePhis(const Function &F) {
  if (!phiDone.insert(&F).second) return;
  DominatorTree DT(const_cast<Function &>(F));
  LoopInfo LI(DT);
  for (auto *L : LI.getLoopsInPreorder()) {
    std::vector<const PHINode *> exact, all;
    for (auto &Ph : L->getHeader()->phis()) {
      if (!Ph.getType()->isIntegerTy() && !Ph.getType()->isPointerTy()) continue;
      PhiInfo PI;
      bool ok = true, first = true;
      int64_t lo = 0, hi = 0;
      for (unsigned i = 0; i < Ph.getNumIncomingValues(); i++) {
        if (!L->contains(Ph.getIncomingBlock(i))) {
          PI.inits.push_back(Ph.getIncomingValue(i));
          continue;
        }
        int64_t a, b;
        std::map<const Value *, std::pair<int64_t, int64_t>> memo;
        std::set<const Value *> act;
        if (!deltaOf(Ph.getIncomingValue(i), &Ph, L, P.DL(), memo, act, a, b)) {
          ok = false;
          break;
        }
        lo = first ? a : std::min(lo, a);
        hi = first ? b : std::max(hi, b);
        first = false;
      }
      if (!ok || first) continue;
      PI.lo = APInt(64, (uint64_t)lo, true);
      PI.hi = APInt(64, (uint64_t)hi, true);
      PI.exact = lo == hi && lo != 0 && Ph.getType()->isIntegerTy();
      phiInfo[&Ph] = PI;
      all.push_back(&Ph);
      if (PI.exact) exact.push_back(&Ph);
    }
    for (auto *p : all)
      for (auto *e : exact)
        if (e != p) phiInfo[p].sib.push_back(e);
  }
}

static bool iterBound(const ConstantRange &cur, const ConstantRange &init, const ConstantRange &def, int64_t step, int64_t &K) {
  if (cur.isEmptySet() || init.isEmptySet()) return false;
  // unwrapped in one interpretation
  unsigned b = cur.getBitWidth();
  if (!def.isSignWrappedSet() && !def.isFullSet() && (step > 0 ? !def.getSignedMax().isMaxSignedValue() : !def.getSignedMin().isMinSignedValue())) {
    APInt d = step > 0 ? cur.getSignedMax().sext(b + 8) - init.getSignedMin().sext(b + 8) : init.getSignedMax().sext(b + 8) - cur.getSignedMin().sext(b + 8);
    if (d.getSignificantBits() > 60) return false;
    K = d.getSExtValue() / (step > 0 ? step : -step);
    if (K < 0) K = 0;
    return true;
  }
  if (!def.isWrappedSet() && !def.isFullSet() && (step > 0 ? !def.getUnsignedMax().isMaxValue() : !def.getUnsignedMin().isMinValue())) {
    APInt d = step > 0 ? cur.getUnsignedMax().zext(b + 8) - init.getUnsignedMin().zext(b + 8) : init.getUnsignedMax().zext(b + 8) - cur.getUnsignedMin().zext(b + 8);
    if (d.getSignificantBits() > 60) return false;
    K = d.getSExtValue() / (step > 0 ? step : -step);
    if (K < 0) K = 0;
    return true;
  }
  return false;
}

CR Ranges::phiBound(const PHINode *Ph, const BState &S) {
  unsigned b = bw(Ph);
  auto it = phiInfo.find(Ph);
  if (it == phiInfo.end()) return full(b);
  auto &PI = it->second;
  CR init = CR::getEmpty(b);
  for (auto *v : PI.inits) {
    auto d = defRange(v);
    if (d) init = init.unionWith(*d, CR::Smallest);
  }
  if (init.isEmptySet() || init.isFullSet() || init.isSignWrappedSet()) return full(b);
  int64_t best = -1;
  for (auto *s : PI.sib) {
    auto d = defRange(s);
    if (!d) continue;
    CR cur = *d;
    auto j = S.ref.find(s);
    if (j != S.ref.end()) cur = cur.intersectWith(j->second);
    CR si = CR::getEmpty(bw(s));
    for (auto *v : phiInfo[s].inits) {
      auto dv = defRange(v);
      if (dv) si = si.unionWith(*dv, CR::Smallest);
    }
    int64_t K;
    if (iterBound(cur, si, *d, phiInfo[s].lo.getSExtValue(), K) && (best < 0 || K < best)) best = K;
  }
  if (best < 0) {
    // a counter that only moves one way never crosses its initial value
    // (2^31 iterations of the loop are not considered)
    if (b < 32) return full(b);
    if (PI.lo.isNonNegative()) return CR::getNonEmpty(init.getSignedMin(), APInt::getSignedMinValue(b));
    if (!PI.hi.isStrictlyPositive() && !init.getSignedMax().isMaxSignedValue()) return CR::getNonEmpty(APInt::getSignedMinValue(b), init.getSignedMax() + 1);
    return full(b);
  }
  APInt k(72, (uint64_t)best);
  APInt lo = init.getSignedMin().sext(72), hi = init.getSignedMax().sext(72);
  APInt dl = PI.lo.sext(72) * k, dh = PI.hi.sext(72) * k;
  if (dl.isNegative()) lo += dl;
  if (dh.isStrictlyPositive()) hi += dh;
  if (PI.exact) {
    // exact stride: still only an interval
  }
  if (lo.getSignificantBits() > b || hi.getSignificantBits() > b) return full(b);
  return CR::getNonEmpty(lo.trunc(b), hi.trunc(b) + 1);
}

std::optional<Ranges::PtrPhi> Ranges::ptrPhi(const PHINode *Ph, const BState &S) {
  auto it = phiInfo.find(Ph);
  if (it == phiInfo.end()) return std::nullopt;
  auto &PI = it->second;
  PtrPhi r;
  r.inits = PI.inits;
  int64_t best = -1;
  for (auto *s : PI.sib) {
    auto d = defRange(s);
    if (!d) continue;
    CR cur = *d;
    auto j = S.ref.find(s);
    if (j != S.ref.end()) cur = cur.intersectWith(j->second);
    CR si = CR::getEmpty(bw(s));
    for (auto *v : phiInfo[s].inits) {
      auto dv = defRange(v);
      if (dv) si = si.unionWith(*dv, CR::Smallest);
    }
    int64_t K;
    if (iterBound(cur, si, *d, phiInfo[s].lo.getSExtValue(), K) && (best < 0 || K < best)) best = K;
  }
  if (best < 0) return std::nullopt;
  r.lo = APInt(64, 0);
  r.hi = APInt(64, 0);
  if (PI.lo.isNegative()) r.lo = PI.lo * APInt(64, (uint64_t)best);
  if (PI.hi.isStrictlyPositive()) r.hi = PI.hi * APInt(64, (uint64_t)best);
  return r;
}

// ---- memory cells -------------------------------------------------------------
int Ranges::addrOf(const Value *ptr, unsigned bits) {
  auto c = ptrAddr.find(ptr);
  if (c != ptrAddr.end()) {
    if (c->second >= 0 && addrs[c->second].bits != bits) return -1;
    return c->second;
  }
  int res = -1;
  Addr A = decompose(ptr);
  bool ok;
  std::string k = key(ptr, &ok);
  auto *AI = dyn_cast<AllocaInst>(A.root);
  auto *AR = dyn_cast<Argument>(A.root);
  if (AR && !A.steps.empty()) AR = nullptr;
  if ((ok || ((AI || AR) && A.steps.empty())) && !isa<PHINode>(A.root) && !isa<SelectInst>(A.root) && !(isa<GlobalVariable>(A.root) && cast<GlobalVariable>(A.root)->isConstant())) {
    std::vector<uint64_t> v{(uint64_t)(uintptr_t)A.root, bits};
    std::set<const Value *> deps{A.root};
    for (auto &s : A.steps) {
      v.push_back(s.k);
      if (s.k == Step::Field) {
        v.push_back(s.idx);
        v.push_back(std::hash<std::string>()(s.st));
      } else if (auto *CI = dyn_cast<ConstantInt>(s.var)) {
        v.push_back(CI->getSExtValue());
        v.push_back(s.arrLen);
      } else {
        v.push_back((uint64_t)(uintptr_t)s.var);
        v.push_back(s.arrLen);
        deps.insert(s.var);
      }
    }
    auto it = addrIds.find(v);
    if (it == addrIds.end()) {
      AddrInfo ai;
      ai.key = ok ? k : "";
      ai.al = ok ? nullptr : AI;
      ai.arg = ok ? nullptr : AR;
      ai.root = A.root;
      ai.bits = bits;
      addrs.push_back(ai);
      it = addrIds.emplace(v, addrs.size() - 1).first;
      if (ok) addrOfKey[k].insert(it->second);
      for (auto *d : deps)
        if (isa<Instruction>(d) && !isa<AllocaInst>(d)) addrDeps[d].insert(it->second);
    }
    res = it->second;
  }
  ptrAddr[ptr] = res;
  return res;
}

CR Ranges::cellRange(const Cell &c, const BState &S) {
  if (!c.val) return c.r;
  return c.r.intersectWith(at(c.val, S, 3));
}

void Ranges::publish(unsigned id, const CR &r) {
  if (r.isEmptySet()) return;
  auto &a = addrs[id];
  if (a.al) {
    bool bad = false;
    if (joinFact(W->allocR, a.al, r, widen && round > 3, &bad)) changed = true;
    if (bad && allocOpen.insert(a.al).second) changed = true;
  } else if (a.arg) {
    bool bad = false;
    if (joinFact(W->argCell, (const Value *)a.arg, r, widen && round > 3, &bad)) changed = true;
    if (bad && argCellOpen.insert(a.arg).second) changed = true;
  } else {
    // content held in a tracked cell of the state machine function leaves through its exits
    disjOwn = curF == dj.F && dj.ids.count(a.key) && dj.ids[a.key] == id;
    joinField(a.key, r);
    disjOwn = false;
  }
}

void Ranges::killDeps(const Value *V, BState &S) {
  auto it = addrDeps.find(V);
  if (it != addrDeps.end())
    for (unsigned id : it->second) {
      auto c = S.mem.find(id);
      if (c == S.mem.end()) continue;
      if (c->second.dirty) {
        publish(id, cellRange(c->second, S));
      }
      S.mem.erase(c);
    }
  for (auto &kv : S.mem)
    if (kv.second.val == V) {
      kv.second.r = cellRange(kv.second, S);
      kv.second.val = nullptr;
    }
  S.eqArg.erase(V);
  for (size_t i = 0; i < S.corr.size();)
    if (S.corr[i].call == V)
      S.corr.erase(S.corr.begin() + i);
    else
      i++;
}

void Ranges::dropCell(unsigned id, BState &S) {
  for (size_t i = 0; i < S.corr.size();)
    if (S.corr[i].id == id)
      S.corr.erase(S.corr.begin() + i);
    else
      i++;
}

// constant value of the state field of the object rooted at root; prev = the value on entry
static bool pureExternal(const Function *G);
// ---- disjunctive treatment of one state machine function --------------------
bool Ranges::disjOn() {
  if (!dj.F) return false;
  for (auto &ks : {dj.ctl, dj.data})
    for (auto &k : ks)
      if (openFields.count(k)) return false;
  return true;
}

std::vector<unsigned> Ranges::classesOf(unsigned ctl, const CR &r) {
  std::vector<unsigned> o;
  auto &cl = dj.spec.ctl[ctl].second;
  for (unsigned i = 0; i < cl.size(); i++)
    if (!r.intersectWith(cl[i]).isEmptySet()) o.push_back(i);
  return o;
}

// blocks after which the machine's fields are no longer touched: its state is final there
void Ranges::computeTail() {
  if (!dj.F) return;
  std::set<std::string> ks(dj.ctl.begin(), dj.ctl.end());
  ks.insert(dj.data.begin(), dj.data.end());
  std::set<const BasicBlock *> touch;
  for (const Instruction &I : instructions(*dj.F)) {
    bool t = false;
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      std::set<std::string> k;
      std::set<const Value *> roots;
      keys(St->getPointerOperand(), k, roots);
      for (auto &x : k) t |= ks.count(x) > 0;
      t |= roots.count(dj.root) && k.empty();
    } else if (auto *C = dyn_cast<CallBase>(&I)) {
      if (isa<MemIntrinsic>(C)) t = true;
      if (!isa<IntrinsicInst>(C) && !isField0(C)) {
        bool unk;
        auto cs = callees(P, C, &unk);
        t |= unk;
        for (auto *G : cs) {
          t |= modsAll.count(G) || (G->isDeclaration() && !pureExternal(G));
          for (auto &k : ks) t |= mods[G].count(k) > 0;
        }
      }
    }
    if (t) touch.insert(I.getParent());
  }
  std::vector<const BasicBlock *> work(touch.begin(), touch.end());
  while (!work.empty()) {
    auto *B = work.back();
    work.pop_back();
    for (auto *Pd : predecessors(B))
      if (touch.insert(Pd).second) work.push_back(Pd);
  }
  for (auto &B : *dj.F)
    if (!touch.count(&B)) dj.tail.insert(&B);
  // a return in a touching block leaves from there
  for (auto &B : *dj.F)
    if (touch.count(&B) && isa<ReturnInst>(B.getTerminator())) dj.retTouch.insert(&B);
}

// a choice among constants: all of them
static bool constLeaves(const Value *v, std::set<uint64_t> &o, int d = 8) {
  if (!d || !v->getType()->isIntegerTy()) return false;
  if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() > 64) return false; o.insert(c->getZExtValue()); return o.size() <= 16; }
  if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) if (!constLeaves(u.get(), o, d - 1)) return false; return true; }
  if (auto *x = dyn_cast<SelectInst>(v)) return constLeaves(x->getTrueValue(), o, d - 1) && constLeaves(x->getFalseValue(), o, d - 1);
  if (isa<TruncInst>(v) || isa<ZExtInst>(v)) {
    std::set<uint64_t> in;
    if (!constLeaves(cast<Instruction>(v)->getOperand(0), in, d - 1)) return false;
    unsigned w = v->getType()->getIntegerBitWidth();
    for (auto q : in) o.insert(w < 64 ? q & ((1ull << w) - 1) : q);
    return true;
  }
  return false;
}

// a class made of one value the content is known to differ from is not possible
void Ranges::dropExcluded(unsigned ctl, const Cell &c, const BState &S, std::vector<unsigned> &cls) {
  if (!c.val) return;
  std::set<uint64_t> lv;
  if (constLeaves(c.val, lv))
    cls.erase(std::remove_if(cls.begin(), cls.end(), [&](unsigned k) {
      auto &r = dj.spec.ctl[ctl].second[k];
      for (auto q : lv) if (r.contains(APInt(r.getBitWidth(), q & ((r.getBitWidth() < 64 ? 1ull << r.getBitWidth() : 0) - 1)))) return false;
      return true;
    }), cls.end());
  auto x = S.excl.find(c.val);
  if (x == S.excl.end()) return;
  for (size_t q = 0; q < cls.size();) {
    auto *e = dj.spec.ctl[ctl].second[cls[q]].getSingleElement();
    if (e && x->second.count(e->getZExtValue())) cls.erase(cls.begin() + q);
    else q++;
  }
}

// union of the classes a control cell may be in
CR Ranges::classHull(unsigned ctl, const Cell &c, const BState &S) {
  auto cls = classesOf(ctl, cellRange(c, S));
  dropExcluded(ctl, c, S, cls);
  CR r = CR::getEmpty(8);
  for (unsigned k : cls) r = r.unionWith(dj.spec.ctl[ctl].second[k], CR::Smallest);
  return r;
}

void Ranges::addTuple(std::vector<unsigned> t, const std::vector<CR> &data) {
  for (auto &f : dj.spec.forget)
    if (t[f.ctl] == f.cls) t[f.drop] = Any;
  auto it = W->tuples.find(t);
  if (it == W->tuples.end()) {
    W->tuples.emplace(t, data);
    changed = true;
    return;
  }
  for (unsigned i = 0; i < data.size(); i++) {
    if (it->second[i].contains(data[i])) continue;
    it->second[i] = it->second[i].unionWith(data[i], CR::Smallest);
    if (widen && round > 8) it->second[i] = widenCR(it->second[i], it->second[i]);
    changed = true;
  }
}

// a store to a control or data field outside the state machine function
void Ranges::disjForeign(const std::string &key, const CR &r) {
  if (!dj.F || r.isEmptySet()) return;
  for (unsigned i = 0; i < dj.ctl.size(); i++)
    if (dj.ctl[i] == key) {
      auto cs = classesOf(i, r);
      auto ts = Rd->tuples;
      for (auto &kv : ts)
        for (unsigned c : cs) {
          auto t = kv.first;
          t[i] = c;
          // a forgotten component may be anything again
          for (unsigned j = 0; j < t.size(); j++)
            if (t[j] == Any && j != i) {
              bool drop = false;
              for (auto &f : dj.spec.forget)
                if (f.drop == j && t[f.ctl] == f.cls) drop = true;
              if (!drop) {
                for (unsigned c2 = 0; c2 < dj.spec.ctl[j].second.size(); c2++) {
                  auto t2 = t;
                  t2[j] = c2;
                  addTuple(t2, kv.second);
                }
              }
            }
          bool full = true;
          for (unsigned j = 0; j < t.size(); j++)
            if (t[j] == Any) {
              bool drop = false;
              for (auto &f : dj.spec.forget)
                if (f.drop == j && t[f.ctl] == f.cls) drop = true;
              if (!drop) full = false;
            }
          if (full) addTuple(t, kv.second);
        }
    }
  for (unsigned i = 0; i < dj.data.size(); i++)
    if (dj.data[i] == key) {
      auto ts = Rd->tuples;
      for (auto &kv : ts) {
        auto d = kv.second;
        d[i] = d[i].unionWith(r.getBitWidth() == 8 ? r : full(8), CR::Smallest);
        addTuple(kv.first, d);
      }
    }
}

void Ranges::seedTuple(const std::vector<unsigned> &t, const std::vector<CR> &data, BState &S) {
  for (unsigned i = 0; i < t.size(); i++) {
    if (t[i] == Any || !dj.ids.count(dj.ctl[i])) continue;
    S.mem.emplace(dj.ids[dj.ctl[i]], Cell{dj.spec.ctl[i].second[t[i]], nullptr, false});
  }
  for (unsigned i = 0; i < data.size(); i++)
    if (dj.ids.count(dj.data[i])) S.mem.emplace(dj.ids[dj.data[i]], Cell{data[i], nullptr, false});
}

// leaving the state machine function in state S
void Ranges::exitTuple(const BState &S) {
  std::vector<std::vector<unsigned>> cls;
  auto cell = [&](const std::string &k) -> std::optional<CR> {
    auto id = dj.ids.find(k);
    if (id == dj.ids.end()) return std::nullopt;
    auto c = S.mem.find(id->second);
    if (c == S.mem.end()) return full(8);
    return cellRange(c->second, S);
  };
  for (unsigned i = 0; i < dj.ctl.size(); i++) {
    auto r = cell(dj.ctl[i]);
    if (!r && curTuple[i] != Any) cls.push_back({curTuple[i]});
    else {
      CR x = r ? *r : full(8);
      auto f = Rd->fieldR.find(dj.ctl[i]);
      cls.push_back(classesOf(i, x));
      if (f != Rd->fieldR.end() && f->second.getBitWidth() == 8) {
        // (two intersections: the meet of two wrapped intervals need not be an interval)
        auto &v = cls.back();
        v.erase(std::remove_if(v.begin(), v.end(), [&](unsigned k) { return dj.spec.ctl[i].second[k].intersectWith(f->second).isEmptySet(); }), v.end());
      }
    }
    auto id = dj.ids.find(dj.ctl[i]);
    auto c = id == dj.ids.end() ? S.mem.end() : S.mem.find(id->second);
    if (c != S.mem.end()) dropExcluded(i, c->second, S, cls.back());
    if (cls.back().empty()) return;
  }
  std::vector<CR> data;
  for (unsigned i = 0; i < dj.data.size(); i++) {
    auto r = cell(dj.data[i]);
    data.push_back(r ? *r : Rd->tuples[curTuple][i]);
    if (data.back().isEmptySet()) return;
  }
  std::vector<std::vector<unsigned>> out = {{}};
  for (auto &c : cls) {
    std::vector<std::vector<unsigned>> n;
    for (auto &t : out)
      for (unsigned x : c) {
        n.push_back(t);
        n.back().push_back(x);
      }
    out = n;
  }
  for (auto &t : out) addTuple(t, data);
}

// range of (field & mask) over everything stored into the field
CR Ranges::maskedField(const std::string &k, const LoadInst *L, const APInt &mask) {
  unsigned b = mask.getBitWidth();
  CR r = CR(APInt::getZero(b));
  CR top = CR::getNonEmpty(APInt::getZero(b), mask + 1);
  if (openFields.count(k) || escaped.count(k)) return top;
  if (!maskBusy.insert(k).second) return top; // evaluating a store of the field that reads it back
  struct Leave { std::set<std::string> &s; const std::string &k; ~Leave() { s.erase(k); } } leave{maskBusy, k};
  auto it = storesOf.find(k);
  if (it != storesOf.end())
    for (auto *St : it->second) {
      if (!live.count(St->getFunction())) continue;
      std::function<bool(const Value *, int)> add = [&](const Value *v, int d) -> bool {
        if (d > 8) return false;
        if (auto *LI = dyn_cast<LoadInst>(v)) {
          bool ok;
          if (key(LI->getPointerOperand(), &ok) == k && ok) return true;
        }
        if (auto *B = dyn_cast<BinaryOperator>(v)) {
          if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1)))
            if ((B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::Xor) && (C->getValue().zextOrTrunc(b) & mask).isZero()) return add(B->getOperand(0), d + 1);
        }
        if (isa<CastInst>(v) && cast<CastInst>(v)->getOperand(0)->getType()->isIntegerTy() && (isa<TruncInst>(v) || isa<ZExtInst>(v))) {
          unsigned nb = std::min(bw(v), bw(cast<CastInst>(v)->getOperand(0)));
          if (mask.getActiveBits() <= nb && add(cast<CastInst>(v)->getOperand(0), d + 1)) return true;
        }
        BState E;
        CR x = at(v, E);
        if (x.isEmptySet()) return true;
        if (x.getUnsignedMax().getActiveBits() > mask.getActiveBits()) return false;
        r = r.unionWith(x.zextOrTrunc(b), CR::Smallest);
        return true;
      };
      if (!add(St->getValueOperand(), 0)) return top;
    }
  // initial values in constant tables
  auto g = initR.find(k);
  if (g != initR.end()) {
    if (g->second.getUnsignedMax().getActiveBits() > mask.getActiveBits()) return top;
    r = r.unionWith(g->second.zextOrTrunc(b), CR::Smallest);
  }
  return r.intersectWith(top);
}

bool Ranges::simplePtrArg(const Value *arg, unsigned bits, int d) {
  if (d > 4) return false;
  for (const User *U : arg->users()) {
    if (auto *L = dyn_cast<LoadInst>(U)) {
      if (L->getType()->isIntegerTy() && L->getType()->getIntegerBitWidth() == bits) continue;
      return false;
    }
    if (isa<DbgInfoIntrinsic>(U) || isa<ICmpInst>(U)) continue;
    if (auto *St = dyn_cast<StoreInst>(U)) {
      if (St->getPointerOperand() == arg && St->getValueOperand() != arg && St->getValueOperand()->getType()->isIntegerTy(bits)) continue;
      return false;
    }
    if (auto *CB = dyn_cast<CallBase>(U)) {
      bool unk;
      auto cs = callees(P, CB, &unk);
      if (unk || cs.empty()) return false;
      for (auto *G : cs) {
        if (G->isDeclaration() || G->isVarArg()) return false;
        for (unsigned j = 0; j < CB->arg_size() && j < G->arg_size(); j++)
          if (CB->getArgOperand(j) == arg && !simplePtrArg(G->getArg(j), bits, d + 1)) return false;
      }
      continue;
    }
    return false;
  }
  return true;
}

// a field of plain values, or a local variable, is set: nothing else changes
static bool setsMemory(const CallBase *C) { return isa<MemIntrinsic>(C) || (calleeName(C) == "EAS_HWMemSet" && C->arg_size() == 3 && isa<ConstantInt>(C->getArgOperand(2))); }
void Ranges::plainDest(const CallBase *C, const AllocaInst *&al, std::string &only) {
  Addr A = decompose(C->getArgOperand(0));
  al = dyn_cast<AllocaInst>(A.root);
  auto *len = dyn_cast<ConstantInt>(C->getArgOperand(2));
  if (al || !len || A.steps.empty() || (isa<MemIntrinsic>(C) && !isa<MemSetInst>(C))) return;
  auto &last = A.steps.back();
  if (last.k == Step::Index && A.steps.size() > 1 && last.var && isa<ConstantInt>(last.var) && cast<ConstantInt>(last.var)->isZero()) A.steps.pop_back();
  if (A.steps.back().k != Step::Field) return;
  auto *ST = structByName(P, A.steps.back().st);
  if (!ST) return;
  Type *E = ST->getElementType(A.steps.back().idx), *X = E;
  while (auto *AT = dyn_cast<ArrayType>(X)) X = AT->getElementType();
  bool ok;
  std::string k = key(C->getArgOperand(0), &ok);
  if (ok && X->isIntegerTy() && len->getZExtValue() <= P.DL().getTypeAllocSize(E)) only = k;
}

void Ranges::computeMods() {
  std::map<const Function *, std::set<const Function *>> cg;
  for (Function &F : *P.M) {
    if (F.isDeclaration()) continue;
    auto &m = mods[&F];
    for (Instruction &I : instructions(F)) {
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        std::set<std::string> ks;
        std::set<const Value *> roots;
        keys(St->getPointerOperand(), ks, roots);
        m.insert(ks.begin(), ks.end());
        for (auto &k : ks) storesOf[k].push_back(St);
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        std::set<std::string> ks;
        std::set<const Value *> roots;
        keys(L->getPointerOperand(), ks, roots);
        uses[&F].insert(ks.begin(), ks.end());
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(C) || isField0(C)) continue;
        std::string n = calleeName(C);
        if (n.rfind("llvm.memset", 0) == 0 || n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0 || n == "memset" || n == "memcpy") {
          // whole-object writes: only the generic helpers do this
          const AllocaInst *al = nullptr;
          std::string only;
          if (isa<MemIntrinsic>(C)) plainDest(C, al, only);
          if (!only.empty()) m.insert(only);
          else if (!al) modsAll.insert(&F);
          continue;
        }
        if (setsMemory(C)) {
          const AllocaInst *al = nullptr;
          std::string only;
          plainDest(C, al, only);
          if (!only.empty()) m.insert(only);
          if (al || !only.empty()) continue;
        }
        bool unk;
        for (auto *G : callees(P, C, &unk))
          if (!G->isDeclaration()) cg[&F].insert(G);
        if (unk) modsAll.insert(&F);
        // address of a field handed to a callee that writes through it
        for (auto &a : C->args())
          if (a->getType()->isPointerTy()) {
            Addr A = decompose(a);
            if (!A.steps.empty()) {
              bool ok;
              std::string k = key(a, &ok);
              if (ok) m.insert(k), uses[&F].insert(k), escaped.insert(k);
            }
          }
      }
    }
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &kv : cg)
      for (auto *G : kv.second) {
        size_t n = mods[kv.first].size();
        mods[kv.first].insert(mods[G].begin(), mods[G].end());
        if (mods[kv.first].size() != n) ch = true;
        n = uses[kv.first].size();
        uses[kv.first].insert(uses[G].begin(), uses[G].end());
        if (uses[kv.first].size() != n) ch = true;
        if (modsAll.count(G) && modsAll.insert(kv.first).second) ch = true;
      }
  }
}

CR Ranges::loadRange(const LoadInst *L) {
  unsigned b = bw(L);
  const Value *p = L->getPointerOperand();
  Addr A = decompose(p);
  if (auto *G = dyn_cast<GlobalVariable>(A.root))
    if (G->isConstant() && G->hasInitializer()) {
      // hull of all values reachable by the access path (indices unconstrained)
      CR r = CR::getEmpty(b);
      bool okAll = true;
      std::function<void(const Constant *, unsigned)> walk = [&](const Constant *C, unsigned i) {
        if (!okAll) return;
        if (i == A.steps.size()) {
          if (auto *CI = dyn_cast<ConstantInt>(C); CI && CI->getBitWidth() == b)
            r = r.unionWith(CR(CI->getValue()), CR::Signed);
          else
            okAll = false;
          return;
        }
        auto &s = A.steps[i];
        if (s.k == Step::Field) {
          if (!C->getType()->isStructTy() || s.idx >= cast<StructType>(C->getType())->getNumElements()) {
            okAll = false;
            return;
          }
          walk(C->getAggregateElement(s.idx), i + 1);
        } else {
          if (!s.arrLen || !C->getType()->isArrayTy()) {
            okAll = false;
            return;
          }
          if (auto *CI = dyn_cast<ConstantInt>(s.var)) {
            if (CI->getZExtValue() >= s.arrLen) {
              okAll = false;
              return;
            }
            walk(C->getAggregateElement(CI->getZExtValue()), i + 1);
          } else
            for (uint64_t j = 0; j < s.arrLen && okAll; j++) walk(C->getAggregateElement(j), i + 1);
        }
      };
      uint64_t tot = 1;
      for (auto &s : A.steps)
        if (s.k == Step::Index && s.arrLen) tot *= s.arrLen;
      if (tot <= 4096) {
        walk(G->getInitializer(), 0);
        if (okAll && !r.isEmptySet()) return r;
      }
      return full(b);
    }
  std::set<std::string> ks;
  std::set<const Value *> roots;
  keys(p, ks, roots);
  CR r = CR::getEmpty(b);
  for (auto &k : ks) r = r.unionWith(fieldRange(k, b), CR::Smallest);
  for (auto *root : roots) {
    auto *AI = dyn_cast<AllocaInst>(root);
    if (!AI || allocOpen.count(AI)) return full(b);
    auto it = Rd->allocR.find(AI);
    if (it == Rd->allocR.end() || it->second.getBitWidth() != b) return full(b);
    r = r.unionWith(it->second, CR::Smallest);
  }
  return r;
}

CR Ranges::eval(const Instruction *I, const BState &S, int depth) {
  unsigned b = bw(I);
  auto op = [&](unsigned i) { return at(I->getOperand(i), S, depth); };
  if (auto *B = dyn_cast<BinaryOperator>(I)) {
    CR x = op(0), y = op(1);
    if (x.isEmptySet() || y.isEmptySet()) return CR::getEmpty(b);
    switch (B->getOpcode()) {
    case Instruction::And: {
      // mask by a non-negative constant bounds the result whatever the other side is
      CR r = x.binaryAnd(y);
      // x & (2^k - 1) with x already below 2^k
      if (auto *m = y.getSingleElement(); m && (*m + 1).isPowerOf2() && !x.isEmptySet() && x.getUnsignedMax().ule(*m)) return x;
      for (int k = 0; k < 2; k++)
        if (auto *C = dyn_cast<ConstantInt>(I->getOperand(k))) {
          CR m = CR::getNonEmpty(APInt::getZero(b), C->getValue() + 1);
          r = r.intersectWith(m);
          const Value *o = I->getOperand(1 - k);
          if (auto *Z = dyn_cast<ZExtInst>(o)) o = Z->getOperand(0);
          if (auto *L = dyn_cast<LoadInst>(o); L && C->getValue().isMask()) {
            bool ok;
            std::string fk = key(L->getPointerOperand(), &ok);
            Addr A = decompose(L->getPointerOperand());
            if (ok && !isa<PHINode>(A.root) && C->getValue().getActiveBits() < bw(L)) r = r.intersectWith(maskedField(fk, L, C->getValue()));
          }
        }
      return r;
    }
    case Instruction::SRem:
    case Instruction::URem:
    default:
      return x.binaryOp(B->getOpcode(), y);
    }
  }
  if (isa<TruncInst>(I)) return op(0).truncate(b);
  if (isa<ZExtInst>(I)) return I->getOperand(0)->getType()->isIntegerTy() ? op(0).zeroExtend(b) : full(b);
  if (isa<SExtInst>(I)) return op(0).signExtend(b);
  if (isa<FreezeInst>(I)) return op(0);
  if (auto *Sel = dyn_cast<SelectInst>(I)) {
    BState T = S, F = S;
    CR r = CR::getEmpty(b);
    if (assume(Sel->getCondition(), true, T)) r = r.unionWith(at(Sel->getTrueValue(), T, 2));
    if (assume(Sel->getCondition(), false, F)) r = r.unionWith(at(Sel->getFalseValue(), F, 2));
    return r;
  }
  if (auto *IC = dyn_cast<ICmpInst>(I)) {
    if (isInt(IC->getOperand(0))) {
      CR x = at(IC->getOperand(0), S, 3), y = at(IC->getOperand(1), S, 3);
      if (x.isEmptySet() || y.isEmptySet()) return CR::getEmpty(1);
      if (x.icmp(IC->getPredicate(), y)) return CR(APInt(1, 1));
      if (x.icmp(IC->getInversePredicate(), y)) return CR(APInt(1, 0));
    }
    return full(1);
  }
  if (auto *L = dyn_cast<LoadInst>(I)) return loadRange(L);
  if (auto *C = dyn_cast<CallBase>(I)) {
    if (auto *II = dyn_cast<IntrinsicInst>(C)) {
      CR x = II->arg_size() && isInt(II->getArgOperand(0)) ? op(0) : full(b);
      switch (II->getIntrinsicID()) {
      case Intrinsic::smax: return x.smax(op(1));
      case Intrinsic::smin: return x.smin(op(1));
      case Intrinsic::umax: return x.umax(op(1));
      case Intrinsic::umin: return x.umin(op(1));
      case Intrinsic::abs: return x.abs();
      default: return full(b);
      }
    }
    bool unk;
    auto cs = callees(P, C, &unk);
    if (unk || cs.empty()) return full(b);
    CR r = CR::getEmpty(b);
    for (auto *G : cs) {
      if (G->isDeclaration() || G->getReturnType() != I->getType()) return full(b);
      auto it = Rd->retR.find(G);
      if (it != Rd->retR.end()) r = r.unionWith(it->second);
    }
    return r;
  }
  return full(b);
}

bool Ranges::refine(const Value *V, CR r, BState &S, int depth) {
  if (isa<Constant>(V)) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return r.contains(C->getValue());
    return true;
  }
  CR cur = at(V, S, 3);
  CR n = cur.intersectWith(r);
  if (n.isEmptySet()) return false;
  if (auto *e = n.getSingleElement()) {
    if (auto x = S.excl.find(V); x != S.excl.end() && x->second.count(e->getZExtValue())) return false;
    if (S.sets.count(V) && !S.sets[V].count(e->getZExtValue())) return false;
    S.sets[V] = {e->getZExtValue()};
  } else if (auto si = S.sets.find(V); si != S.sets.end()) {
    CR h = CR::getEmpty(n.getBitWidth());
    for (auto it = si->second.begin(); it != si->second.end();) {
      APInt v(n.getBitWidth(), *it);
      if (!n.contains(v) || !r.contains(v)) {
        it = si->second.erase(it);
        continue;
      }
      h = h.unionWith(CR(v), CR::Smallest);
      ++it;
    }
    if (si->second.empty()) return false;
    CR t = n.intersectWith(h);
    if (!t.isEmptySet()) n = t;
  }
  if (n != cur || !S.ref.count(V)) {
    auto it = S.ref.find(V);
    if (it == S.ref.end())
      S.ref.try_emplace(V, n);
    else
      it->second = n;
  }
  for (auto &c : S.corr)
    if (c.call == V) {
      auto m = S.mem.find(c.id);
      if (m == S.mem.end()) continue;
      APInt zero = APInt::getZero(n.getBitWidth());
      if (n.getSingleElement() && *n.getSingleElement() == zero)
        m->second.r = m->second.r.intersectWith(c.z);
      else if (!n.contains(zero))
        m->second.r = m->second.r.intersectWith(c.nz);
    }
  if (depth <= 0) return true;
  auto *I = dyn_cast<Instruction>(V);
  if (!I) return true;
  if (auto *Z = dyn_cast<ZExtInst>(I)) {
    unsigned b = bw(Z->getOperand(0));
    CR m = n.intersectWith(CR::getNonEmpty(APInt::getZero(n.getBitWidth()), APInt::getOneBitSet(n.getBitWidth(), b)));
    if (m.isEmptySet()) return false;
    if (b == 1) {
      if (!m.contains(APInt(n.getBitWidth(), 0))) return assume(Z->getOperand(0), true, S, depth - 1);
      if (!m.contains(APInt(n.getBitWidth(), 1))) return assume(Z->getOperand(0), false, S, depth - 1);
      return true;
    }
    return refine(Z->getOperand(0), m.truncate(b), S, depth - 1);
  }
  if (auto *Z = dyn_cast<SExtInst>(I)) {
    unsigned b = bw(Z->getOperand(0));
    CR dom = full(b).signExtend(n.getBitWidth());
    CR m = n.intersectWith(dom);
    if (m.isEmptySet()) return false;
    return refine(Z->getOperand(0), m.truncate(b), S, depth - 1);
  }
  if (auto *T = dyn_cast<TruncInst>(I)) {
    const Value *X = T->getOperand(0);
    unsigned xb = bw(X), b = n.getBitWidth();
    CR xr = at(X, S, 3);
    CR u = CR::getNonEmpty(APInt::getZero(xb), APInt::getOneBitSet(xb, b));
    CR s = full(b).signExtend(xb);
    if (u.contains(xr)) return refine(X, n.zeroExtend(xb), S, depth - 1);
    if (s.contains(xr)) return refine(X, n.signExtend(xb), S, depth - 1);
    return true;
  }
  if (isa<FreezeInst>(I)) return refine(I->getOperand(0), n, S, depth - 1);
  if (auto *B = dyn_cast<BinaryOperator>(I)) {
    if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1))) {
      switch (B->getOpcode()) {
      case Instruction::Add: return refine(B->getOperand(0), n.subtract(C->getValue()), S, depth - 1);
      case Instruction::Sub: return refine(B->getOperand(0), n.add(CR(C->getValue())), S, depth - 1);
      case Instruction::LShr: {
        if (n.isWrappedSet()) break;
        unsigned sh = C->getZExtValue();
        if (sh >= n.getBitWidth()) break;
        APInt lo = n.getUnsignedMin().shl(sh);
        APInt hi = n.getUnsignedMax().shl(sh) | APInt::getLowBitsSet(n.getBitWidth(), sh);
        if (n.getUnsignedMax().countl_zero() < sh) break;
        return refine(B->getOperand(0), CR::getNonEmpty(lo, hi + 1), S, depth - 1);
      }
      case Instruction::And: {
        // bit test: x & 2^k is zero / non-zero, where x < 2^(k+1)
        const APInt &m = C->getValue();
        CR x = at(B->getOperand(0), S, 3);
        if (!m.isPowerOf2() && !x.isEmptySet()) { // x & m <= x <= (x & m) + the bits of x not in m
          unsigned w = n.getBitWidth();
          CR k = n.intersectWith(CR::getNonEmpty(APInt::getZero(w), m + 1));
          if (k.isEmptySet()) break;
          APInt rest = APInt::getLowBitsSet(w, x.getUnsignedMax().getActiveBits()) & ~m;
          bool ov;
          APInt hi = k.getUnsignedMax().uadd_ov(rest, ov);
          if (ov) break;
          return refine(B->getOperand(0), CR::getNonEmpty(k.getUnsignedMin(), hi + 1), S, depth - 1);
        }
        if (!m.isPowerOf2() || x.isEmptySet()) break;
        APInt lim = m.isSignMask() ? APInt::getZero(m.getBitWidth()) : m.shl(1);
        if (lim != 0 && x.getUnsignedMax().uge(lim)) break;
        if (!n.contains(m)) return refine(B->getOperand(0), CR::getNonEmpty(APInt::getZero(m.getBitWidth()), m), S, depth - 1);
        if (!n.contains(APInt::getZero(m.getBitWidth()))) return refine(B->getOperand(0), CR::getNonEmpty(m, lim), S, depth - 1);
        break;
      }
      default: break;
      }
    }
    if (auto *C = dyn_cast<ConstantInt>(B->getOperand(0)))
      if (B->getOpcode() == Instruction::Sub) return refine(B->getOperand(1), CR(C->getValue()).sub(n), S, depth - 1);
  }
  return true;
}

bool Ranges::assume(const Value *C, bool truth, BState &S, int depth) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->isOne() == truth;
  if (depth <= 0) return true;
  if (C->getType()->isIntegerTy(1))
    if (!refine(C, CR(APInt(1, truth)), S, 0)) return false;
  if (auto *IC = dyn_cast<ICmpInst>(C)) {
    if (!isInt(IC->getOperand(0))) return true;
    auto pred = truth ? IC->getPredicate() : IC->getInversePredicate();
    const Value *A = IC->getOperand(0), *B = IC->getOperand(1);
    CR a = at(A, S), b = at(B, S);
    if (a.isEmptySet() || b.isEmptySet()) return false;
    CR ra = CR::makeAllowedICmpRegion(pred, b);
    if (!refine(A, ra, S)) return false;
    CR rb = CR::makeAllowedICmpRegion(ICmpInst::getSwappedPredicate(pred), at(A, S));
    if (!refine(B, rb, S)) return false;
    if (pred == ICmpInst::ICMP_NE)
      if (auto *K = dyn_cast<ConstantInt>(B)) exclude(A, K->getValue(), S);
    if (pred == ICmpInst::ICMP_EQ) {
      if (auto *X = dyn_cast<Argument>(B)) S.eqArg[A] = X;
      if (auto *X = dyn_cast<Argument>(A)) S.eqArg[B] = X;
    }
    return true;
  }
  if (auto *B = dyn_cast<BinaryOperator>(C)) {
    if (B->getOpcode() == Instruction::And && truth) return assume(B->getOperand(0), true, S, depth - 1) && assume(B->getOperand(1), true, S, depth - 1);
    if (B->getOpcode() == Instruction::Or && !truth) return assume(B->getOperand(0), false, S, depth - 1) && assume(B->getOperand(1), false, S, depth - 1);
    if (B->getOpcode() == Instruction::Xor)
      if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)))
        if (K->isOne()) return assume(B->getOperand(0), !truth, S, depth - 1);
  }
  if (auto *Sel = dyn_cast<SelectInst>(C)) {
    // logical and / or
    if (auto *F = dyn_cast<ConstantInt>(Sel->getFalseValue()); F && F->isZero() && truth)
      return assume(Sel->getCondition(), true, S, depth - 1) && assume(Sel->getTrueValue(), true, S, depth - 1);
    if (auto *T = dyn_cast<ConstantInt>(Sel->getTrueValue()); T && T->isOne() && !truth)
      return assume(Sel->getCondition(), false, S, depth - 1) && assume(Sel->getFalseValue(), false, S, depth - 1);
  }
  return true;
}

void Ranges::exclude(const Value *V, const APInt &k, BState &S) {
  if (isa<Constant>(V)) return;
  auto &x = S.excl[V];
  if (x.size() < 16) x.insert(k.getZExtValue());
  if (auto *Z = dyn_cast<ZExtInst>(V)) {
    unsigned b = Z->getOperand(0)->getType()->getIntegerBitWidth();
    if (k.isIntN(b)) exclude(Z->getOperand(0), k.trunc(b), S);
  }
}

bool Ranges::edgeState(const BasicBlock *from, const BasicBlock *to, BState &S, unsigned si) {
  const Instruction *T = from->getTerminator();
  if (auto *B = dyn_cast<BranchInst>(T)) {
    if (B->isConditional()) {
      if (B->getSuccessor(0) == B->getSuccessor(1)) return true;
      return assume(B->getCondition(), si == 0, S);
    }
    return true;
  }
  if (auto *SW = dyn_cast<SwitchInst>(T)) {
    CR r = CR::getEmpty(bw(SW->getCondition()));
    bool isDef = SW->getDefaultDest() == to;
    for (auto &c : SW->cases())
      if (c.getCaseSuccessor() == to) r = r.unionWith(CR(c.getCaseValue()->getValue()));
    if (isDef) {
      CR d = at(SW->getCondition(), S);
      // shave case values off the ends
      bool again = true;
      while (again && !d.isEmptySet()) {
        again = false;
        for (auto &c : SW->cases()) {
          if (c.getCaseSuccessor() == to) continue;
          APInt v = c.getCaseValue()->getValue();
          exclude(SW->getCondition(), v, S);
          CR n = d.difference(CR(v));
          if (n != d && (d.getUnsignedMin() == v || d.getUnsignedMax() == v || d.getSignedMin() == v || d.getSignedMax() == v)) {
            d = n;
            again = true;
          }
        }
      }
      r = r.unionWith(d);
      if (r.isEmptySet()) return false;
    }
    return refine(SW->getCondition(), r, S);
  }
  return true;
}

bool Ranges::nonZero(const Value *V, const BState &S, int depth) {
  CR r = at(V, S);
  APInt zero = APInt::getZero(bw(V));
  if (r.isEmptySet() || !r.contains(zero)) return true;
  if (auto x = S.excl.find(V); x != S.excl.end() && x->second.count(0)) return true;
  if (depth <= 0) return false;
  auto *I = dyn_cast<Instruction>(V);
  if (!I) return false;
  if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<FreezeInst>(I)) return isInt(I->getOperand(0)) && nonZero(I->getOperand(0), S, depth - 1);
  if (I->getOpcode() == Instruction::Shl)
    if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1))) {
      CR x = at(I->getOperand(0), S);
      unsigned sh = K->getZExtValue(), w = bw(V);
      if (sh >= w || !nonZero(I->getOperand(0), S, depth - 1)) return false;
      if (w == 64 && sh <= 16) return true; // lengths and address differences stay below 2^47
      return x.getSignedMax().getSignificantBits() + sh <= w && x.getSignedMin().getSignificantBits() + sh <= w;
    }
  return false;
}

void Ranges::setDef(const Instruction *I, CR r) {
  if (r.isEmptySet()) return;
  auto it = R.find(I);
  if (it == R.end()) {
    R.try_emplace(I, r);
    changed = true;
    return;
  }
  if (narrowing) {
    CR n = it->second.intersectWith(r);
    if (n != it->second) it->second = n;
    return;
  }
  if (it->second.contains(r)) return;
  CR u = it->second.unionWith(r, CR::Smallest);
  if (widen) {
    bool hdr = isa<PHINode>(I);
    if (hdr || round > 12) u = widenCR(it->second, u);
  }
  it->second = u;
  changed = true;
}

void Ranges::recordStore(const Value *ptr, const Value *val, const BState &S) {
  if (!isInt(val)) return;
  CR r = at(val, S);
  if (r.isEmptySet()) return;
  std::set<std::string> ks;
  std::set<const Value *> roots;
  keys(ptr, ks, roots);
  for (auto &k : ks) {
    joinField(k, r);
  }
  for (auto *root : roots) {
    bool bad = false;
    if (auto *G = dyn_cast<Argument>(root)) {
      if (joinFact(W->argCell, (const Value *)G, r, widen && round > 3, &bad)) changed = true;
      if (bad && argCellOpen.insert(G).second) changed = true;
    } else if (auto *AI = dyn_cast<AllocaInst>(root)) {
      if (joinFact(W->allocR, AI, r, widen && round > 3, &bad)) changed = true;
      if (bad && allocOpen.insert(AI).second) changed = true;
    }
  }
}

static bool pureExternal(const Function *G) {
  static const std::set<std::string> ok = {"malloc", "free", "calloc", "strlen", "memcmp", "log10", "vfprintf", "fflush", "printf", "exit", "fseek", "ftell", "fclose", "fopen"};
  return ok.count(G->getName().str()) || G->getName().starts_with("sv.field0.") || G->isIntrinsic() && !G->getName().starts_with("llvm.mem");
}

void Ranges::transfer(const Instruction *I, BState &S) {
  if (isa<DbgInfoIntrinsic>(I)) return;
  if (!isa<PHINode>(I)) {
    killDeps(I, S);
    S.ref.erase(I);
    S.sets.erase(I);
    S.excl.erase(I);
  }
  if (auto *L = dyn_cast<LoadInst>(I)) {
    if (!isInt(L)) return;
    int id = addrOf(L->getPointerOperand(), bw(L));
    if (id < 0) {
      CR r = loadRange(L);
      // transient contents of possibly aliasing cells
      std::set<std::string> ks;
      std::set<const Value *> roots;
      keys(L->getPointerOperand(), ks, roots);
      for (auto &kv : S.mem)
        if (kv.second.dirty && addrs[kv.first].bits == bw(L) && ks.count(addrs[kv.first].key)) r = r.unionWith(cellRange(kv.second, S), CR::Smallest);
      setDef(L, r);
      return;
    }
    auto c = S.mem.find(id);
    if (c != S.mem.end()) {
      CR r = cellRange(c->second, S);
      setDef(L, r);
      if (!c->second.val || isa<Constant>(c->second.val)) c->second.val = nullptr;
      if (!c->second.val) c->second.val = L;
      else S.ref.insert({L, r});
      return;
    }
    CR r = loadRange(L);
    if (!addrs[id].key.empty())
      for (auto &kv : S.mem)
        if (kv.second.dirty && addrs[kv.first].key == addrs[id].key && addrs[kv.first].bits == addrs[id].bits) r = r.unionWith(cellRange(kv.second, S), CR::Smallest);
    setDef(L, r);
    S.mem.emplace((unsigned)id, Cell{r, L, false});
    return;
  }
  if (isInt(I) && !isa<PHINode>(I)) setDef(I, eval(I, S, 4));
  if (auto *St = dyn_cast<StoreInst>(I)) {
    const Value *v = St->getValueOperand();
    if (!isInt(v)) return;
    int id = addrOf(St->getPointerOperand(), bw(v));
    CR r = at(v, S);
    std::set<std::string> ks;
    std::set<const Value *> roots;
    keys(St->getPointerOperand(), ks, roots);
    for (auto it = S.mem.begin(); it != S.mem.end(); ++it) {
      auto &a = addrs[it->first];
      if ((int)it->first == id) continue;
      if (!a.key.empty() ? ks.count(a.key) : (roots.count(a.al) && !a.al->getAllocatedType()->isStructTy())) {
        CR o = cellRange(it->second, S);
        it->second.r = a.bits == bw(v) ? o.unionWith(r, CR::Smallest) : full(a.bits);
        it->second.val = nullptr;
      }
    }
    if (id < 0) {
      recordStore(St->getPointerOperand(), v, S);
      return;
    }
    auto c = S.mem.find(id);
    if (c != S.mem.end()) S.mem.erase(c);
    dropCell(id, S);
    S.mem.emplace((unsigned)id, Cell{r, isa<Constant>(v) ? nullptr : v, true});
    return;
  }
  if (auto *Rt = dyn_cast<ReturnInst>(I)) {
    if (I->getFunction() == dj.F && disjOn() && !curTuple.empty() && (dj.retTouch.count(I->getParent()) || dj.tail.count(&I->getFunction()->getEntryBlock()))) exitTuple(S);
    if (Rt->getReturnValue() && isInt(Rt->getReturnValue())) {
      CR rv = at(Rt->getReturnValue(), S);
      APInt zero = APInt::getZero(rv.getBitWidth());
      bool cz = rv.contains(zero), cn = !rv.isEmptySet() && !(rv.getSingleElement() && *rv.getSingleElement() == zero);
      for (const Argument &A : I->getFunction()->args()) {
        if (!A.getType()->isPointerTy()) continue;
        const Cell *c = nullptr;
        for (auto &kv : S.mem)
          if (addrs[kv.first].arg == &A) c = &kv.second;
        auto &o = W->outs[&A];
        auto put = [&](std::optional<CR> &slot, bool &keep) {
          CR r = CR::getEmpty(8);
          if (!c) {
            if (!keep) keep = changed = true;
            // no content known here: any value the function may have stored
            std::optional<CR> st;
            for (auto *fx : {Rd, W}) {
              auto ac = fx->argCell.find(&A);
              if (ac == fx->argCell.end()) continue;
              CR v = argCellOpen.count(&A) ? full(ac->second.getBitWidth()) : ac->second;
              st = st && st->getBitWidth() == v.getBitWidth() ? st->unionWith(v, CR::Smallest) : v;
            }
            if (!st) return;
            r = *st;
          } else
            r = cellRange(*c, S);
          if (r.isEmptySet()) return;
          if (!slot) {
            slot = r;
            changed = true;
          } else if (slot->getBitWidth() != r.getBitWidth()) {
            if (!keep) keep = changed = true;
          } else if (!slot->contains(r)) {
            CR u = slot->unionWith(r, CR::Smallest);
            if (widen && round > 3) u = widenCR(*slot, u);
            slot = u;
            changed = true;
          }
        };
        if (cz) {
          put(o.z, o.keepZ);
          int e = -2;
          if (c && c->val) {
            auto q = S.eqArg.find(c->val);
            if (q != S.eqArg.end()) e = q->second->getArgNo();
            if (auto *X = dyn_cast<Argument>(c->val)) e = X->getArgNo();
          }
          int ne = o.eqZ == -1 ? e : (o.eqZ == e ? e : -2);
          if (ne != o.eqZ) {
            o.eqZ = ne;
            changed = true;
          }
        }
        if (cn) put(o.nz, o.keepNZ);
      }
    }
    for (auto &kv : S.mem)
      if (kv.second.dirty && addrs[kv.first].al == nullptr) publish(kv.first, cellRange(kv.second, S));
    S.mem.clear();
    if (Rt->getReturnValue() && isInt(Rt->getReturnValue())) {
      CR r = at(Rt->getReturnValue(), S);
      if (r.isEmptySet()) return;
      bool bad = false;
      if (joinFact(W->retR, I->getFunction(), r, widen && round > 3, &bad)) changed = true;
    }
    return;
  }
  if (auto *C = dyn_cast<CallBase>(I)) {
    bool plain = false;
    if (setsMemory(C)) {
      const AllocaInst *al = nullptr;
      std::string only;
      plainDest(C, al, only);
      if (al || !only.empty()) {
        for (auto it = S.mem.begin(); it != S.mem.end();) {
          auto &a = addrs[it->first];
          bool kill = al ? a.al == al || (!a.al && !a.arg && a.root == al) : !a.al && !a.arg && a.key == only;
          if (kill) {
            if (it->second.dirty) publish(it->first, cellRange(it->second, S));
            dropCell(it->first, S);
          }
          it = kill ? S.mem.erase(it) : std::next(it);
        }
        plain = true;
      } else if (isa<MemIntrinsic>(C)) {
        for (auto &kv : S.mem)
          if (kv.second.dirty) publish(kv.first, cellRange(kv.second, S));
        S.mem.clear();
        S.corr.clear();
      }
      if (isa<MemIntrinsic>(C)) return;
    }
    if (isa<IntrinsicInst>(C) || isField0(C)) return;
    bool unk;
    auto cs = callees(P, C, &unk);
    bool all = unk;
    for (auto *G : cs)
      if (modsAll.count(G) || (G->isDeclaration() && !G->doesNotAccessMemory() && !pureExternal(G))) all = true;
    auto touches = [&](const std::string &k, bool modOnly) {
      if (all) return true;
      for (auto *G : cs)
        if (mods[G].count(k) || (!modOnly && uses[G].count(k))) return true;
      return false;
    };
    for (auto &kv : S.mem)
      if (!plain && kv.second.dirty && !addrs[kv.first].al && !addrs[kv.first].arg && touches(addrs[kv.first].key, false)) {
        publish(kv.first, cellRange(kv.second, S));
        kv.second.dirty = false;
      }
    std::map<unsigned, CR> prior;
    for (auto it = S.mem.begin(); !plain && it != S.mem.end();) {
      auto &a = addrs[it->first];
      bool kill = false;
      if (a.al || a.arg) {
        for (auto &x : C->args())
          if (x->getType()->isPointerTy() && decompose(x).root == a.root) kill = true;
      } else
        kill = touches(a.key, true);
      if (kill) {
        if (it->second.dirty) publish(it->first, cellRange(it->second, S));
        if (a.al) prior.emplace(it->first, cellRange(it->second, S));
        dropCell(it->first, S);
      }
      it = kill ? S.mem.erase(it) : std::next(it);
    }
    for (auto *G : cs) {
      if (G->isDeclaration()) continue;
      if (live.insert(G).second) changed = true;
      for (unsigned i = 0; i < C->arg_size() && i < G->arg_size(); i++) {
        const Value *a = C->getArgOperand(i);
        const Argument *p = G->getArg(i);
        if (isInt(a) && a->getType() == p->getType() && !rootFns.count(G)) {
          CR r = at(a, S);
          if (r.isEmptySet()) continue;
          bool bad = false;
          if (joinFact(W->argR, p, r, widen && round > 3, &bad)) changed = true;
        }
        if (a->getType()->isPointerTy()) {
          auto it = Rd->argCell.find(p);
          if (it != Rd->argCell.end()) {
            CR v = argCellOpen.count(p) ? full(it->second.getBitWidth()) : it->second;
            bool bad = false;
            std::set<std::string> ks;
            std::set<const Value *> roots;
            keys(a, ks, roots);
            for (auto &k : ks) joinField(k, v);
            for (auto *root : roots)
              if (auto *PA = dyn_cast<Argument>(root)) {
                if (joinFact(W->argCell, (const Value *)PA, v, widen && round > 3, &bad)) changed = true;
                if (bad && argCellOpen.insert(PA).second) changed = true;
              }
          }
        }
      }
    }
    // allocas whose address is handed to a call: the callee's stores through the
    // parameter when they are all visible, anything otherwise
    for (unsigned i = 0; i < C->arg_size(); i++) {
      if (!C->getArgOperand(i)->getType()->isPointerTy()) continue;
      Addr A = decompose(C->getArgOperand(i));
      auto *AI = dyn_cast<AllocaInst>(A.root);
      if (!AI || allocOpen.count(AI)) continue;
      bool known = !unk && !cs.empty() && A.steps.empty() && AI->getAllocatedType()->isIntegerTy();
      if (known)
        for (auto *G : cs)
          if (G->isDeclaration() || G->isVarArg() || i >= G->arg_size() || !simplePtrArg(G->getArg(i), AI->getAllocatedType()->getIntegerBitWidth(), 0)) known = false;
      if (!known) {
        if (allocOpen.insert(AI).second) changed = true;
        continue;
      }
      for (auto *G : cs) {
        auto it = Rd->argCell.find(G->getArg(i));
        if (it == Rd->argCell.end()) continue;
        bool bad = false;
        if (joinFact(W->allocR, (const AllocaInst *)AI, it->second, widen && round > 3, &bad)) changed = true;
        if (bad && allocOpen.insert(AI).second) changed = true;
      }
      // content after the call, split on the call's result
      int id = addrOf(C->getArgOperand(i), AI->getAllocatedType()->getIntegerBitWidth());
      if (id < 0 || !isInt(C)) continue;
      unsigned b = addrs[id].bits;
      CR z = CR::getEmpty(b), nz = CR::getEmpty(b);
      bool usable = true;
      for (auto *G : cs) {
        auto o = Rd->outs.find(G->getArg(i));
        if (o == Rd->outs.end()) continue; // callee not analysed yet: bottom
        auto &O = o->second;
        if ((O.z && O.z->getBitWidth() != b) || (O.nz && O.nz->getBitWidth() != b)) {
          usable = false;
          break;
        }
        CR before = full(b);
        auto p = prior.find(id);
        if (p != prior.end()) before = p->second;
        CR gz = CR::getEmpty(b), gn = CR::getEmpty(b);
        if (O.z) gz = gz.unionWith(*O.z, CR::Smallest);
        if (O.eqZ >= 0 && !O.keepZ && isInt(C->getArgOperand(O.eqZ)) && bw(C->getArgOperand(O.eqZ)) == b) gz = gz.intersectWith(at(C->getArgOperand(O.eqZ), S));
        if (O.keepZ) gz = gz.unionWith(before, CR::Smallest);
        if (O.nz) gn = gn.unionWith(*O.nz, CR::Smallest);
        if (O.keepNZ) gn = gn.unionWith(before, CR::Smallest);
        z = z.unionWith(gz, CR::Smallest);
        nz = nz.unionWith(gn, CR::Smallest);
      }
      if (!usable) continue;
      S.mem.emplace((unsigned)id, Cell{z.unionWith(nz, CR::Smallest), nullptr, true});
      S.corr.push_back({C, (unsigned)id, z, nz});
    }
  }
}

// State at the entry of B from the out-states of its predecessors; phi ranges in ph.
bool Ranges::entryState(const BasicBlock *B, BState &S, SmallVectorImpl<std::pair<const PHINode *, CR>> &ph) {
  const Function &F = *B->getParent();
  auto &BI = in[&F];
  if (B == &F.getEntryBlock()) {
    S.reach = true;
    if (&F == dj.F && disjOn()) {
      const Argument *mode = nullptr;
      for (auto &A : F.args())
        if (A.getType()->isIntegerTy() && !A.getType()->isIntegerTy(8)) mode = &A;
      if (!curTuple.empty()) seedTuple(curTuple, Rd->tuples.at(curTuple), S);
      if (mode && dj.spec.scanMode >= 0) {
        CR k(APInt(bw(mode), dj.spec.scanMode));
        if (!refine(mode, curTuple.empty() ? k : k.inverse(), S)) return false;
      } else if (curTuple.empty())
        return false;
    }
    return true;
  }
  bool first = true;
  for (auto &p : B->phis())
    if (isInt(&p)) ph.push_back({&p, CR::getEmpty(bw(&p))});
  SmallPtrSet<const BasicBlock *, 8> seenP;
  for (const BasicBlock *Pd : predecessors(B)) {
    if (!seenP.insert(Pd).second) continue;
    auto bi = BI.find(Pd);
    if (bi == BI.end() || !bi->second.reach) continue;
    const Instruction *T = Pd->getTerminator();
    for (unsigned si = 0; si < T->getNumSuccessors(); si++) {
      if (T->getSuccessor(si) != B) continue;
      if (isa<SwitchInst>(T)) {
        bool firstEdge = true;
        for (unsigned q = 0; q < si; q++)
          if (T->getSuccessor(q) == B) firstEdge = false;
        if (!firstEdge) continue; // edgeState covers all switch edges to B at once
      }
      BState E;
      E.reach = true;
      E.ref = bi->second.ref;
      E.sets = bi->second.sets;
      E.excl = bi->second.excl;
      E.mem = bi->second.mem;
      E.corr = bi->second.corr;
      E.eqArg = bi->second.eqArg;
      if (!edgeState(Pd, B, E, si)) continue;
      if (&F == dj.F && disjOn() && !curTuple.empty() && dj.tail.count(B) && !dj.tail.count(Pd)) exitTuple(E);
      for (auto &pr : ph) {
        const Value *v = pr.first->getIncomingValueForBlock(Pd);
        pr.second = pr.second.unionWith(at(v, E), CR::Smallest);
      }
      for (auto &p : B->phis()) {
        killDeps(&p, E);
        E.ref.erase(&p);
        E.sets.erase(&p);
        E.excl.erase(&p);
      }
      if (!first) {
        // facts that only survive when both sides agree
        for (auto it = S.eqArg.begin(); it != S.eqArg.end();) {
          auto j = E.eqArg.find(it->first);
          it = j == E.eqArg.end() || j->second != it->second ? S.eqArg.erase(it) : std::next(it);
        }
        for (size_t i = 0; i < S.corr.size();) {
          bool found = false;
          for (auto &c : E.corr)
            if (c.call == S.corr[i].call && c.id == S.corr[i].id && c.z == S.corr[i].z && c.nz == S.corr[i].nz) found = true;
          if (!found)
            S.corr.erase(S.corr.begin() + i);
          else
            i++;
        }
        // merge memory contents
        for (auto it = S.mem.begin(); it != S.mem.end();) {
          auto j = E.mem.find(it->first);
          Cell &c = it->second;
          if (j == E.mem.end()) {
            if (c.dirty) publish(it->first, cellRange(c, S));
            it = S.mem.erase(it);
            continue;
          }
          if (c.val != j->second.val) {
            CR hull = full(addrs[it->first].bits);
            if (&F == dj.F)
              for (unsigned q = 0; q < dj.ctl.size(); q++)
                if (auto id = dj.ids.find(dj.ctl[q]); id != dj.ids.end() && id->second == it->first)
                  hull = classHull(q, c, S).unionWith(classHull(q, j->second, E), CR::Smallest);
            c.r = cellRange(c, S).unionWith(cellRange(j->second, E), CR::Smallest);
            if (c.r.getBitWidth() == hull.getBitWidth()) c.r = c.r.intersectWith(hull, CR::Smallest);
            c.val = nullptr;
          } else
            c.r = c.r.unionWith(j->second.r, CR::Smallest);
          c.dirty |= j->second.dirty;
          ++it;
        }
        for (auto &kv : E.mem)
          if (kv.second.dirty && !S.mem.count(kv.first)) publish(kv.first, cellRange(kv.second, E));
      }
      if (first) {
        S = std::move(E);
        first = false;
      } else {
        SmallVector<const Value *, 16> drop;
        for (auto &kv : S.ref) {
          auto j = E.ref.find(kv.first);
          CR other = j != E.ref.end() ? j->second : at(kv.first, E, 2);
          CR u = kv.second.unionWith(other, CR::Smallest);
          if (u.isFullSet())
            drop.push_back(kv.first);
          else
            kv.second = u;
        }
        for (auto *d : drop) S.ref.erase(d);
        for (auto it = S.excl.begin(); it != S.excl.end();) {
          auto j = E.excl.find(it->first);
          for (auto v = it->second.begin(); v != it->second.end();)
            v = j == E.excl.end() || !j->second.count(*v) ? it->second.erase(v) : std::next(v);
          it = it->second.empty() ? S.excl.erase(it) : std::next(it);
        }
        for (auto it = S.sets.begin(); it != S.sets.end();) {
          auto j = E.sets.find(it->first);
          if (j != E.sets.end()) it->second.insert(j->second.begin(), j->second.end());
          if (j == E.sets.end() || it->second.size() > 8)
            it = S.sets.erase(it);
          else
            ++it;
        }
      }
    }
  }
  if (first) return false;
  S.reach = true;
  return true;
}

// run body once, or once per tuple for the state machine function, each with its own local facts
void Ranges::perTuple(const Function &F, std::function<void()> body) {
  curF = &F;
  if (&F == dj.F && disjOn()) {
    auto ts = Rd->tuples;
    ts.emplace(std::vector<unsigned>(), std::vector<CR>()); // the scanning mode, any state
    for (auto &kv : ts) {
      curTuple = kv.first;
      auto &ctx = djCtx[curTuple];
      std::swap(R, ctx.R);
      std::swap(in[&F], ctx.in);
      body();
      std::swap(R, ctx.R);
      std::swap(in[&F], ctx.in);
    }
  } else
    body();
  curF = nullptr;
}

void Ranges::analyse(const Function &F) {
  perTuple(F, [&] { analyse1(F); });
}

void Ranges::analyse1(const Function &F) {
  auto &BI = in[&F];
  computePhis(F);
  ReversePostOrderTraversal<const Function *> RPO(&F);
  bool local = true;
  unsigned it = 0;
  while (local && it++ < (narrowing ? 1u : 3u)) {
    bool before = changed;
    changed = false;
    for (const BasicBlock *B : RPO) {
      BState S;
      SmallVector<std::pair<const PHINode *, CR>, 8> ph;
      if (!entryState(B, S, ph)) {
        BI[B].reach = false;
        continue;
      }
      for (auto &pr : ph)
        if (!pr.second.isEmptySet()) setDef(pr.first, pr.second);
      for (const Instruction &I : *B) transfer(&I, S);
      auto &slot = BI[B];
      bool same = slot.reach && slot.ref.size() == S.ref.size();
      if (same)
        for (auto &kv : S.ref) {
          auto j = slot.ref.find(kv.first);
          if (j == slot.ref.end() || j->second != kv.second) {
            same = false;
            break;
          }
        }
      if (same) {
        same = slot.mem.size() == S.mem.size();
        for (auto a = slot.mem.begin(), b = S.mem.begin(); same && a != slot.mem.end(); ++a, ++b)
          if (a->first != b->first || a->second.r != b->second.r || a->second.val != b->second.val || a->second.dirty != b->second.dirty) same = false;
      }
      if (same) same = slot.corr.size() == S.corr.size() && slot.sets == S.sets && slot.excl == S.excl;
      if (!same) changed = true;
      S.reach = true;
      slot = std::move(S);
    }
    local = changed;
    changed = before || changed;
  }
}

void Ranges::solve() {
  Rd = W = &facts;
  computeTail();
  auto seed = [&] {
    if (dj.F) addTuple(std::vector<unsigned>(dj.ctl.size(), 0), std::vector<CR>(dj.data.size(), CR(APInt::getZero(8))));
  };
  seed();
  initGlobals();
  auto order = [&] {
    std::vector<const Function *> fs(live.begin(), live.end());
    std::sort(fs.begin(), fs.end(), [](auto *a, auto *b) { return a->getName() < b->getName(); });
    return fs;
  };
  for (round = 0; round < 200; round++) {
    changed = false;
    widen = round >= 2;
    for (auto *F : order()) analyse(*F);
    passes++;
    if (!changed) break;
  }
  converged = !changed;
  // Descending iteration from the post-fixpoint: every pass re-collects all
  // interprocedural facts while reading the previous (larger, still sound) ones.
  narrowing = true;
  widen = false;
  for (int k = 0; k < (getenv("SV_NARROW") ? atoi(getenv("SV_NARROW")) : 6); k++) {
    Facts nf;
    W = &nf;
    seed();
    initGlobals();
    size_t oc = openFields.size();
    for (auto *F : order()) analyse(*F);
    passes++;
    (void)oc;
    facts = std::move(nf);
    W = &facts;
  }
}

void Ranges::visit(const Function &F, std::function<void(const Instruction *, const BState &)> cb) {
  if (!live.count(&F)) return;
  bool n = narrowing;
  narrowing = true;
  widen = false;
  Facts scratch;
  W = &scratch;
  perTuple(F, [&] {
    for (const BasicBlock *B : ReversePostOrderTraversal<const Function *>(&F)) {
      BState S;
      SmallVector<std::pair<const PHINode *, CR>, 8> ph;
      if (!entryState(B, S, ph)) continue;
      for (const Instruction &I : *B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        cb(&I, S);
        transfer(&I, S);
      }
    }
  });
  W = &facts;
  narrowing = n;
}
} // namespace sv
