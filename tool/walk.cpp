#include "walk.h"
#include "llvm/ADT/PostOrderIterator.h"
using namespace sv;
using CR = ConstantRange;

std::string ModRef::fieldKey(const Value *ptr) {
  Addr A = decompose(ptr);
  for (auto it = A.steps.rbegin(); it != A.steps.rend(); ++it)
    if (it->k == Step::Field) return it->st + "#" + std::to_string(it->idx);
  return "";
}

static bool constRets(const Function &F, std::vector<APInt> &out) {
  if (F.isDeclaration() || !F.getReturnType()->isIntegerTy()) return false;
  bool ok = true;
  std::set<const Value *> seen;
  std::function<void(const Value *)> go = [&](const Value *v) {
    if (!seen.insert(v).second) return;
    if (auto *K = dyn_cast<ConstantInt>(v)) out.push_back(K->getValue());
    else if (auto *Ph = dyn_cast<PHINode>(v)) for (auto &o : Ph->incoming_values()) go(o);
    else if (auto *S = dyn_cast<SelectInst>(v)) go(S->getTrueValue()), go(S->getFalseValue());
    else ok = false;
  };
  for (auto &B : F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) go(R->getReturnValue());
  return ok && !out.empty();
}

ModRef::ModRef(Program &P) : P(P) {
  std::map<const Function *, std::vector<const Function *>> calls;
  for (Function &F : *P.M) {
    if (std::vector<APInt> v; constRets(F, v)) rets[&F] = v;
    auto &m = mods[&F];
    for (Instruction &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        if (isa<AllocaInst>(decompose(S->getPointerOperand()).root)) continue;
        auto k = fieldKey(S->getPointerOperand());
        m.insert(k.empty() ? "*" : k);
      } else if (auto *M = dyn_cast<MemIntrinsic>(&I)) {
        Addr A = decompose(M->getDest());
        if (isa<AllocaInst>(A.root)) continue;
        auto k = fieldKey(M->getDest());
        m.insert(k.empty() ? "*" : k);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        for (auto *G : callees(P, C)) calls[&F].push_back(G);
      }
    }
  }
  bool ch = true;
  for (Function &F : *P.M) {
    if (F.isDeclaration()) {
      for (unsigned i = 0; i < F.arg_size(); i++) raw[&F].insert(i);
      continue;
    }
    for (Instruction &I : instructions(F)) {
      if (isField0(&I)) continue;
      for (unsigned i = 0; i < I.getNumOperands(); i++) {
        auto *o = I.getOperand(i);
        if (!o->getType()->isPointerTy()) continue;
        bool esc = isa<CallBase>(I) || (isa<StoreInst>(I) && i == 0) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<ReturnInst>(I);
        if (esc && !isDbg(&I)) if (auto k = fieldKey(o); !k.empty()) taken.insert(k);
      }
    }
  }
  while (ch) {
    ch = false;
    for (Function &F : *P.M) {
      if (F.isDeclaration()) continue;
      auto &m = raw[&F];
      auto add = [&](const Value *ptr) {
        if (!fieldKey(ptr).empty()) return;
        std::set<const Value *> seen;
        std::function<void(const Value *)> go = [&](const Value *v) {
          v = decompose(v).root;
          if (!seen.insert(v).second) return;
          if (auto *A = dyn_cast<Argument>(v)) { if (m.insert(A->getArgNo()).second) ch = true; }
          else if (auto *Ph = dyn_cast<PHINode>(v)) for (auto &o : Ph->incoming_values()) go(o);
          else if (auto *S = dyn_cast<SelectInst>(v)) go(S->getTrueValue()), go(S->getFalseValue());
        };
        go(ptr);
      };
      for (Instruction &I : instructions(F)) {
        if (auto *S = dyn_cast<StoreInst>(&I)) {
          add(S->getPointerOperand());
          if (S->getValueOperand()->getType()->isPointerTy()) add(S->getValueOperand()); // published: anything may write it
        } else if (auto *M = dyn_cast<MemIntrinsic>(&I)) add(M->getDest());
        else if (auto *C = dyn_cast<CallBase>(&I)) {
          if (isDbg(C) || isField0(C)) continue;
          bool unk;
          auto cs = callees(P, C, &unk);
          for (unsigned i = 0; i < C->arg_size(); i++) {
            if (!C->getArgOperand(i)->getType()->isPointerTy()) continue;
            bool r = unk || cs.empty();
            for (auto *G : cs) r |= raw[G].count(i) || i >= G->arg_size();
            if (r && !isa<IntrinsicInst>(C)) add(C->getArgOperand(i));
          }
        }
      }
    }
  }
  ch = true;
  while (ch) {
    ch = false;
    for (Function &F : *P.M) {
      if (F.isDeclaration()) continue;
      auto &m = pub[&F];
      auto add = [&](const Value *v) {
        std::set<const Value *> seen;
        std::function<void(const Value *)> go = [&](const Value *v) {
          v = decompose(v).root;
          if (!seen.insert(v).second) return;
          if (auto *A = dyn_cast<Argument>(v)) { if (m.insert(A->getArgNo()).second) ch = true; }
          else if (auto *Ph = dyn_cast<PHINode>(v)) for (auto &o : Ph->incoming_values()) go(o);
          else if (auto *S = dyn_cast<SelectInst>(v)) go(S->getTrueValue()), go(S->getFalseValue());
          else if (auto *K = dyn_cast<CastInst>(v)) go(K->getOperand(0));
        };
        go(v);
      };
      for (Instruction &I : instructions(F)) {
        if (auto *S = dyn_cast<StoreInst>(&I)) add(S->getValueOperand());
        else if (auto *R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue()) add(R->getReturnValue()); }
        else if (auto *C = dyn_cast<CallBase>(&I)) {
          if (isDbg(C) || isField0(C)) continue;
          for (auto *G : callees(P, C)) for (unsigned i : pub[G]) if (i < C->arg_size()) add(C->getArgOperand(i));
        }
      }
    }
  }
  ch = true;
  while (ch) {
    ch = false;
    for (auto &kv : calls)
      for (auto *G : kv.second) {
        auto &m = mods[kv.first];
        size_t n = m.size();
        auto &g = mods[G];
        m.insert(g.begin(), g.end());
        if (m.size() != n) ch = true;
      }
  }
}

bool ModRef::local(const AllocaInst *A) {
  auto f = localOnly.find(A);
  if (f != localOnly.end()) return f->second;
  bool ok = true;
  std::vector<const Value *> w{A};
  std::set<const Value *> seen{A};
  while (!w.empty() && ok) {
    const Value *v = w.back();
    w.pop_back();
    for (auto *U : v->users()) {
      if (isa<LoadInst>(U) || isa<ICmpInst>(U) || isDbg(cast<Instruction>(U))) continue;
      if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getValueOperand() == v) ok = false; continue; }
      if (isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<BitCastInst>(U) || isField0(U)) { if (seen.insert(U).second) w.push_back(U); continue; }
      if (auto *C = dyn_cast<CallBase>(U)) {
        if (isa<IntrinsicInst>(C)) continue;
        for (auto *G : callees(P, C))
          for (unsigned i : pub[G]) if (i < C->arg_size() && C->getArgOperand(i) == v) ok = false;
        continue;
      }
      ok = false;
    }
  }
  return localOnly[A] = ok;
}

unsigned Walk::bits(const Value *V) { return V->getType()->isPointerTy() ? 64 : V->getType()->getIntegerBitWidth(); }

const Value *Walk::canon(const WState &S, const Value *V) {
  for (int i = 0; i < 20; i++) {
    auto it = S.same.find(V);
    if (it == S.same.end()) return V;
    V = it->second;
  }
  return V;
}

CR Walk::get(const WState &S, const Value *V, int depth) {
  unsigned b = bits(V);
  if (auto *C = dyn_cast<ConstantInt>(V)) return CR(C->getValue());
  if (isa<ConstantPointerNull>(V)) return CR(APInt::getZero(64));
  if (isa<Function>(V) || isa<GlobalVariable>(V) || isa<AllocaInst>(V)) return CR(APInt(64, 1), APInt(64, 0));
  V = canon(S, V);
  if (isa<Constant>(V) && !isa<ConstantExpr>(V)) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return CR(C->getValue());
    if (isa<ConstantPointerNull>(V)) return CR(APInt::getZero(64));
    if (isa<GlobalValue>(V)) return CR(APInt(64, 1), APInt(64, 0));
  }
  CR r = CR::getFull(b);
  auto it = S.fact.find(V);
  if (it != S.fact.end()) r = it->second;
  if (!depth) return r;
  auto *I = dyn_cast<Operator>(V);
  if (!I) return r;
  if (isField0(V) || isa<GEPOperator>(V)) {
    // an address inside an object is null only if built from a null base
    const Value *base = decompose(V).root;
    if (base != V && !get(S, base, depth - 1).contains(APInt::getZero(64))) return r.intersectWith(CR(APInt(64, 1), APInt(64, 0)));
    return r;
  }
  auto op = [&](unsigned i) { return get(S, cast<User>(V)->getOperand(i), depth - 1); };
  auto ok = [&](unsigned i) { return tracked(cast<User>(V)->getOperand(i)); };
  switch (I->getOpcode()) {
  case Instruction::ZExt: if (ok(0)) r = r.intersectWith(op(0).zeroExtend(b)); break;
  case Instruction::SExt: if (ok(0)) r = r.intersectWith(op(0).signExtend(b)); break;
  case Instruction::Trunc: if (ok(0)) r = r.intersectWith(op(0).truncate(b)); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (ok(0) && bits(I->getOperand(0)) == b) r = r.intersectWith(op(0)); break;
  case Instruction::Freeze: if (ok(0)) r = r.intersectWith(op(0)); break;
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Add: case Instruction::Sub:
  case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    r = r.intersectWith(op(0).binaryOp((Instruction::BinaryOps)I->getOpcode(), op(1)));
    break;
  case Instruction::Select: if (auto c = get(S, I->getOperand(0), depth - 1); true) {
      if (c.isSingleElement()) r = r.intersectWith(op(c.getSingleElement()->isOne() ? 1 : 2));
      else r = r.intersectWith(op(1).unionWith(op(2)));
    }
    break;
  case Instruction::ICmp: {
    if (!ok(0)) break;
    auto *C = cast<ICmpInst>(I);
    if (canon(S, C->getOperand(0)) == canon(S, C->getOperand(1))) { r = CR(APInt(1, C->isTrueWhenEqual())); break; }
    CR x = op(0), y = op(1);
    if (x.isEmptySet() || y.isEmptySet()) break;
    if (x.icmp(C->getPredicate(), y)) r = CR(APInt(1, 1));
    else if (x.icmp(C->getInversePredicate(), y)) r = CR(APInt(1, 0));
    break;
  }
  default: break;
  }
  return r;
}

bool Walk::refine(WState &S, const Value *V, const CR &r0, int depth) {
  CR cur = get(S, V);
  CR r = cur.intersectWith(r0);
  if (r.isEmptySet()) return false;
  // an intersection of two wrapped sets is approximated: never lose "not zero" that way
  if (APInt z = APInt::getZero(r.getBitWidth()); r.contains(z) && !(cur.contains(z) && r0.contains(z))) {
    r = cur.contains(z) ? r0 : cur;
    if (r.contains(z)) r = CR(z + 1, z);
  }
  V = canon(S, V);
  if (isa<Constant>(V) || r == cur) { if (r == cur) return true; if (isa<Constant>(V)) return true; }
  S.fact.insert_or_assign(V, r);
  if (!depth) return true;
  auto *I = dyn_cast<Instruction>(V);
  if (!I) return true;
  if (auto *Z = dyn_cast<CastInst>(I); Z && tracked(Z->getOperand(0))) {
    unsigned sb = bits(Z->getOperand(0));
    if (isa<ZExtInst>(Z)) return refine(S, Z->getOperand(0), r.intersectWith(CR::getFull(sb).zeroExtend(bits(V))).truncate(sb), depth - 1);
    if (isa<SExtInst>(Z)) return refine(S, Z->getOperand(0), r.intersectWith(CR::getFull(sb).signExtend(bits(V))).truncate(sb), depth - 1);
    if ((isa<PtrToIntInst>(Z) || isa<IntToPtrInst>(Z)) && sb == bits(V)) return refine(S, Z->getOperand(0), r, depth - 1);
    return true;
  }
  if (V->getType()->isIntegerTy(1) && r.isSingleElement()) return assume(S, V, r.getSingleElement()->isOne(), depth - 1);
  if (isa<FreezeInst>(I)) return refine(S, I->getOperand(0), r, depth - 1);
  if (auto *Sel = dyn_cast<SelectInst>(I)) {
    bool t = !get(S, Sel->getTrueValue()).intersectWith(r).isEmptySet(), f = !get(S, Sel->getFalseValue()).intersectWith(r).isEmptySet();
    if (!t && !f) return false;
    if (!t) return assume(S, Sel->getCondition(), false, depth - 1) && refine(S, Sel->getFalseValue(), r, depth - 1);
    if (!f) return assume(S, Sel->getCondition(), true, depth - 1) && refine(S, Sel->getTrueValue(), r, depth - 1);
  }
  return true;
}

bool Walk::assume(WState &S, const Value *C, bool truth, int depth) {
  CR c = get(S, C);
  if (c.isSingleElement() && c.getSingleElement()->isOne() != truth) return false;
  C = canon(S, C);
  if (isa<Constant>(C)) return true;
  S.fact.insert_or_assign(C, CR(APInt(1, truth)));
  if (!depth) return true;
  auto *I = dyn_cast<Instruction>(C);
  if (!I) return true;
  if (auto *IC = dyn_cast<ICmpInst>(I)) {
    if (!tracked(IC->getOperand(0))) return true;
    auto p = truth ? IC->getPredicate() : IC->getInversePredicate();
    const Value *a = IC->getOperand(0), *b = IC->getOperand(1);
    CR x = get(S, a), y = get(S, b);
    if (x.isEmptySet() || y.isEmptySet()) return false;
    if (!refine(S, a, CR::makeAllowedICmpRegion(p, y), depth - 1)) return false;
    if (!refine(S, b, CR::makeAllowedICmpRegion(ICmpInst::getSwappedPredicate(p), x), depth - 1)) return false;
    if (p == ICmpInst::ICMP_EQ && !isa<Constant>(a) && !isa<Constant>(b)) {
      CR m = get(S, a).intersectWith(get(S, b));
      if (m.isEmptySet()) return false;
      return refine(S, a, m, depth - 1) && refine(S, b, m, depth - 1);
    }
    // x & mask tests
    return true;
  }
  if (auto *B = dyn_cast<BinaryOperator>(I)) {
    if (B->getOpcode() == Instruction::And && truth) return assume(S, B->getOperand(0), true, depth - 1) && assume(S, B->getOperand(1), true, depth - 1);
    if (B->getOpcode() == Instruction::Or && !truth) return assume(S, B->getOperand(0), false, depth - 1) && assume(S, B->getOperand(1), false, depth - 1);
    if (B->getOpcode() == Instruction::Xor)
      if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) return assume(S, B->getOperand(0), truth ^ K->isOne(), depth - 1);
    return true;
  }
  if (isa<TruncInst>(I)) return true;
  if (auto *Sel = dyn_cast<SelectInst>(I)) { // a && b, a || b
    auto *t = dyn_cast<ConstantInt>(Sel->getTrueValue()), *f = dyn_cast<ConstantInt>(Sel->getFalseValue());
    if (f && f->isOne() != truth) return assume(S, Sel->getCondition(), true, depth - 1) && assume(S, Sel->getTrueValue(), truth, depth - 1);
    if (t && t->isOne() != truth) return assume(S, Sel->getCondition(), false, depth - 1) && assume(S, Sel->getFalseValue(), truth, depth - 1);
  }
  return true;
}

std::string Walk::cell(const WState &S, const Value *ptr) {
  Addr A = decompose(ptr);
  const Value *r = canon(S, A.root);
  std::string s = std::to_string((uintptr_t)r);
  for (auto &st : A.steps)
    if (st.k == Step::Field)
      s += "|" + st.st + "#" + std::to_string(st.idx);
    else {
      if (auto *C = dyn_cast<ConstantInt>(st.var)) s += "|[" + std::to_string(C->getSExtValue()) + "]";
      else {
        const Value *v = canon(S, st.var);
        while (auto *Z = dyn_cast<ZExtInst>(v)) v = canon(S, Z->getOperand(0));
        if (auto *C = dyn_cast<ConstantInt>(v)) s += "|[" + std::to_string(C->getZExtValue()) + "]";
        else s += "|[v" + std::to_string((uintptr_t)v) + "]";
      }
    }
  return s;
}

// is the value of T evaluated from V (see get)?
bool Walk::computedFrom(const Value *T, const Value *V, int depth) {
  if (T == V) return true;
  if (!depth || !isa<Instruction>(T)) return false;
  if (isField0(T)) return computedFrom(cast<CallBase>(T)->getArgOperand(0), V, depth - 1);
  if (!isa<CastInst>(T) && !isa<BinaryOperator>(T) && !isa<SelectInst>(T) && !isa<CmpInst>(T) && !isa<GetElementPtrInst>(T) && !isa<FreezeInst>(T)) return false;
  for (auto &o : cast<User>(T)->operands())
    if (computedFrom(o.get(), V, depth - 1)) return true;
  return false;
}
bool Walk::stale(const Value *T, const Value *V) {
  if (T == V || !isa<Instruction>(T)) return false;
  auto k = std::make_pair(T, V);
  auto it = dep.find(k);
  if (it != dep.end()) return it->second;
  return dep[k] = computedFrom(T, V, 7);
}

void Walk::kill(WState &S, const Value *V) {
  // what was computed from the old value of V can no longer be evaluated from its operands
  for (auto it = S.same.begin(); it != S.same.end();) {
    if (stale(it->second, V) && it->first != V) {
      auto *k = it->first;
      CR r = get(S, k);
      it = S.same.erase(it);
      if (!r.isFullSet()) S.fact.insert_or_assign(k, r);
    } else
      ++it;
  }
  for (auto it = S.mem.begin(); it != S.mem.end();) it = stale(it->second, V) ? S.mem.erase(it) : std::next(it);
  // older values equal to V keep what is known about V
  for (auto &kv : S.same)
    if (kv.second == V && kv.first != V)
      if (auto f = S.fact.find(V); f != S.fact.end() && !S.fact.count(kv.first)) { CR r = f->second; S.fact.insert({kv.first, r}); }
  S.fact.erase(V);
  S.same.erase(V);
  std::string tag = std::to_string((uintptr_t)V);
  for (auto it = S.same.begin(); it != S.same.end();) it = it->second == V ? S.same.erase(it) : std::next(it);
  for (auto it = S.mem.begin(); it != S.mem.end();)
    it = (it->second == V || it->first.compare(0, tag.size(), tag) == 0 || it->first.find("v" + tag + "]") != std::string::npos) ? S.mem.erase(it) : std::next(it);
  // values computed from V
  for (auto it = S.fact.begin(); it != S.fact.end();) {
    bool dep = false;
    if (auto *U = dyn_cast<User>(it->first))
      if (!isa<PHINode>(U) && !isa<LoadInst>(U) && !isa<CallBase>(U))
        for (auto &o : U->operands()) dep |= o.get() == V;
    it = dep ? S.fact.erase(it) : std::next(it);
  }
}

static std::string lastField(const std::string &cell) {
  size_t p = cell.rfind('#');
  if (p == std::string::npos) return "";
  size_t b = cell.rfind('|', p);
  size_t e = cell.find('|', p);
  return cell.substr(b + 1, e == std::string::npos ? std::string::npos : e - b - 1);
}

void Walk::exec(const Instruction *I, WState &S) {
  if (auto *L = dyn_cast<LoadInst>(I)) {
    kill(S, I);
    if (!tracked(L)) return;
    std::string c = cell(S, L->getPointerOperand());
    auto it = S.mem.find(c);
    if (it != S.mem.end() && it->second->getType() == L->getType()) {
      const Value *v = canon(S, it->second);
      if (v != L) S.same[L] = v;
    } else
      S.mem[c] = L;
    return;
  }
  if (auto *St = dyn_cast<StoreInst>(I)) {
    const Value *ptr = St->getPointerOperand();
    std::string c = cell(S, ptr), k = lastField(c);
    bool al = isa<AllocaInst>(decompose(ptr).root);
    std::string rootTag = c.substr(0, c.find('|'));
    for (auto it = S.mem.begin(); it != S.mem.end();) {
      bool sameRoot = it->first.compare(0, rootTag.size(), rootTag) == 0 && (it->first.size() == rootTag.size() || it->first[rootTag.size()] == '|');
      bool kl;
      if (al) kl = sameRoot && (lastField(it->first) == k || k.empty());
      else if (auto *A = dyn_cast<AllocaInst>((const Value *)std::stoull(it->first.substr(0, it->first.find('|')))); A && MR.local(A)) kl = sameRoot;
      else kl = !k.empty() ? lastField(it->first) == k : sameRoot || (!isa<AllocaInst>(decompose(ptr).root) && lastField(it->first).empty());
      it = kl ? S.mem.erase(it) : std::next(it);
    }
    if (tracked(St->getValueOperand())) S.mem[c] = St->getValueOperand();
    return;
  }
  if (auto *C = dyn_cast<CallBase>(I)) {
    if (isDbg(C)) return;
    if (isField0(C)) { kill(S, I); return; }
    if (!I->getType()->isVoidTy()) kill(S, I);
    if (auto *II = dyn_cast<IntrinsicInst>(C))
      if (!isa<MemIntrinsic>(II)) return;
    std::set<std::string> tags;
    auto root = [&](const Value *p) {
      tags.insert(std::to_string((uintptr_t)canon(S, decompose(p).root)));
    };
    std::vector<const Function *> cs;
    bool unk = false;
    if (!isa<MemIntrinsic>(C)) cs = callees(P, C, &unk);
    if (!cs.empty() && !unk && I->getType()->isIntegerTy()) {
      CR r = CR::getEmpty(bits(I));
      for (auto *G : cs) {
        auto f = MR.rets.find(G);
        if (f == MR.rets.end() || f->second[0].getBitWidth() != bits(I)) { r = CR::getFull(bits(I)); break; }
        for (auto &v : f->second) r = r.unionWith(CR(v), CR::Signed);
      }
      if (!r.isFullSet()) S.fact.insert_or_assign(I, r);
    }
    // objects on the stack whose address is passed: killed as far as a callee may write them
    struct Passed { std::string cell; unsigned arg; };
    std::vector<Passed> passed;
    if (auto *M = dyn_cast<MemIntrinsic>(C)) root(M->getDest());
    else
      for (unsigned i = 0; i < C->arg_size(); i++) {
        auto *a = C->getArgOperand(i);
        if (!a->getType()->isPointerTy() || !isa<AllocaInst>(canon(S, decompose(a).root))) continue;
        if (cs.empty() || unk) root(a);
        else passed.push_back({cell(S, a), i});
      }
    auto mayWrite = [&](const std::string &c, const std::string &k) {
      for (auto &p : passed) {
        std::string rt = p.cell.substr(0, p.cell.find('|'));
        if (c.compare(0, rt.size(), rt) || (c.size() > rt.size() && c[rt.size()] != '|')) continue;
        bool below = c == p.cell || (c.compare(0, p.cell.size(), p.cell) == 0 && c[p.cell.size()] == '|');
        for (auto *G : cs) {
          auto r = MR.raw.find(G);
          if (below && r != MR.raw.end() && r->second.count(p.arg)) return true;
          auto m = MR.mods.find(G);
          if (m == MR.mods.end()) return true;
          if (below && !k.empty() && (m->second.count(k) || (MR.taken.count(k) && m->second.count("*")))) return true;
        }
      }
      return false;
    };
    for (auto it = S.mem.begin(); it != S.mem.end();) {
      std::string rt = it->first.substr(0, it->first.find('|'));
      std::string k = lastField(it->first);
      bool kl = tags.count(rt) || mayWrite(it->first, k);
      if (!kl && !k.empty() && !(constField && constField(k)))
        for (auto *G : cs) {
          auto f = MR.mods.find(G);
          if (f != MR.mods.end() && f->second.count(k)) kl = true;
        }
      if (!kl && k.empty()) // plain pointer target
        for (auto *G : cs) {
          auto f = MR.mods.find(G);
          if (f != MR.mods.end() && f->second.count("*")) {
            const Value *r = (const Value *)std::stoull(rt);
            if (!isa<AllocaInst>(r)) kl = true;
          }
        }
      it = kl ? S.mem.erase(it) : std::next(it);
    }
    return;
  }
  if (!I->getType()->isVoidTy()) kill(S, I);
}

std::vector<std::string> Walk::path(const WState &S) {
  std::vector<std::string> p;
  for (auto *I : S.trail) {
    auto l = loc(I);
    if (p.empty() || p.back() != "via " + l) p.push_back("via " + l);
  }
  return p;
}

void Walk::add(const BasicBlock *from, const BasicBlock *to, WState S) {
  if (leave) leave(from, to, S);
  // phis, simultaneously
  std::vector<std::pair<const PHINode *, const Value *>> inc;
  for (const PHINode &Ph : to->phis()) inc.push_back({&Ph, Ph.getIncomingValueForBlock(from)});
  std::vector<std::pair<CR, const Value *>> val;
  for (auto &pv : inc) {
    if (!tracked(pv.first)) { val.push_back({CR::getFull(1), nullptr}); continue; }
    val.push_back({get(S, pv.second), canon(S, pv.second)});
  }
  for (auto &pv : inc) kill(S, pv.first);
  for (size_t i = 0; i < inc.size(); i++) {
    if (!tracked(inc[i].first)) continue;
    bool self = false;
    for (auto &pv : inc) self |= pv.first == val[i].second || (val[i].second && stale(val[i].second, pv.first));
    if (val[i].second && !self && !isa<UndefValue>(val[i].second)) S.same[inc[i].first] = val[i].second;
    else if (!val[i].first.isFullSet()) S.fact.insert_or_assign(inc[i].first, val[i].first);
  }
  if (edge) edge(from, to, S);
  auto &v = in[to];
  for (auto &o : v)
    if (o.sameFacts(S)) return;
  unsigned n = 0;
  for (auto &o : v) n += o.ts == S.ts;
  if (n >= maxStates) {
    // merge into the newest state of the same typestate
    overflow = true;
    for (auto &o : v)
      if (o.ts == S.ts) {
        WState m = o;
        std::set<const Value *> ks;
        for (const WState *st : {(const WState *)&o, (const WState *)&S}) {
          for (auto &kv : st->fact) ks.insert(kv.first);
          for (auto &kv : st->same) ks.insert(kv.first);
        }
        m.fact.clear();
        for (auto *k : ks) {
          CR x = get(o, k), y = get(S, k), u = x.unionWith(y);
          unsigned bw = u.getBitWidth();
          if (u != x && !u.isFullSet()) {
            APInt z = APInt::getZero(bw); // widen: only zero / non-zero survives
            u = x.contains(z) || y.contains(z) ? CR::getFull(bw) : CR(z + 1, z);
          }
          if (!u.isFullSet()) m.fact.insert({k, u});
        }
        for (auto it = m.same.begin(); it != m.same.end();) {
          auto j = S.same.find(it->first);
          it = (j == S.same.end() || j->second != it->second) ? m.same.erase(it) : std::next(it);
        }
        for (auto it = m.mem.begin(); it != m.mem.end();) {
          auto j = S.mem.find(it->first);
          it = (j == S.mem.end() || j->second != it->second) ? m.mem.erase(it) : std::next(it);
        }
        if (m.sameFacts(o)) return;
        o = m;
        break;
      }
  } else
    v.push_back(std::move(S));
  if (std::find(work.begin(), work.end(), to) == work.end()) work.push_back(to);
}

void Walk::block(const BasicBlock *B, BasicBlock::const_iterator it, WState S) {
  std::vector<WState> todo{std::move(S)};
  std::vector<BasicBlock::const_iterator> pos{it};
  while (!todo.empty()) {
    WState T = std::move(todo.back());
    auto p = pos.back();
    todo.pop_back();
    pos.pop_back();
    bool alive = true;
    for (; p != B->end(); ++p) {
      const Instruction *I = &*p;
      visited++;
      if (I->isTerminator() || isa<PHINode>(I) || isDbg(I)) {
        if (!I->isTerminator()) continue;
        break;
      }
      if (pre) pre(I, T);
      exec(I, T);
      if (inst) {
        std::vector<WState> ex;
        alive = inst(I, T, ex);
        for (auto &e : ex) todo.push_back(std::move(e)), pos.push_back(std::next(p));
        if (!alive) break;
      }
    }
    if (!alive) continue;
    const Instruction *I = B->getTerminator();
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      if (ret) ret(R, T);
      continue;
    }
    auto go = [&](const BasicBlock *to, WState U) { add(B, to, std::move(U)); };
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (Br->isUnconditional()) { go(Br->getSuccessor(0), std::move(T)); continue; }
      for (int k = 0; k < 2; k++) {
        WState U = T;
        if (!assume(U, Br->getCondition(), k == 0)) continue;
        if (U.trail.size() < 60) U.trail.push_back(I);
        go(Br->getSuccessor(k), std::move(U));
      }
      continue;
    }
    if (auto *SW = dyn_cast<SwitchInst>(I)) {
      CR all = get(T, SW->getCondition());
      std::set<const BasicBlock *> done;
      for (auto &c : SW->cases()) {
        if (!all.contains(c.getCaseValue()->getValue())) continue;
        WState U = T;
        if (!refine(U, SW->getCondition(), CR(c.getCaseValue()->getValue()))) continue;
        if (U.trail.size() < 60) U.trail.push_back(I);
        go(c.getCaseSuccessor(), std::move(U));
      }
      for (auto &c : SW->cases())
        if (!all.isEmptySet()) all = all.difference(CR(c.getCaseValue()->getValue()));
      if (!all.isEmptySet()) {
        WState U = T;
        if (refine(U, SW->getCondition(), all)) {
          if (U.trail.size() < 60) U.trail.push_back(I);
          go(SW->getDefaultDest(), std::move(U));
        }
      }
      continue;
    }
    for (auto *to : successors(B)) go(to, T);
  }
}

void Walk::loop() {
  if (order.empty()) {
    unsigned n = 0;
    ReversePostOrderTraversal<const Function *> RPO(&F);
    for (auto *B : RPO) order[B] = n++;
  }
  std::map<const BasicBlock *, std::vector<WState>> done;
  long budget = 400000;
  while (!work.empty() && budget > 0 && !stop) {
    auto it = std::min_element(work.begin(), work.end(), [&](auto *a, auto *b) { return order[a] < order[b]; });
    const BasicBlock *B = *it;
    work.erase(it);
    auto states = in[B];
    for (auto &S : states) {
      if (stop) break;
      bool dup = false;
      for (auto &o : done[B]) dup |= o.sameFacts(S);
      if (dup) continue;
      done[B].push_back(S);
      budget--;
      block(B, B->begin(), S);
    }
  }
  if (budget <= 0) overflow = true;
}

void Walk::run(const WState &init) {
  in.clear();
  work.clear();
  const BasicBlock *E = &F.getEntryBlock();
  in[E].push_back(init);
  work.push_back(E);
  loop();
}

void Walk::runAfter(const Instruction *I, const WState &init) {
  in.clear();
  work.clear();
  // the branches every path to this point has taken
  WState S = init;
  DominatorTree DT(const_cast<Function &>(F));
  for (auto *N = DT.getNode(const_cast<BasicBlock *>(I->getParent())); N && N->getIDom(); N = N->getIDom()) {
    auto *D = N->getIDom()->getBlock();
    auto *B = dyn_cast<BranchInst>(D->getTerminator());
    if (!B || !B->isConditional() || B->getSuccessor(0) == B->getSuccessor(1)) continue;
    for (unsigned k = 0; k < 2; k++)
      if (DT.dominates(BasicBlockEdge(D, B->getSuccessor(k)), I->getParent())) { if (!assume(S, B->getCondition(), k == 0)) return; }
  }
  block(I->getParent(), std::next(I->getIterator()), S);
  loop();
}
