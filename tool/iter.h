// Loops: one iteration at a time, and values as normalised expressions.
#pragma once
#include "sim.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
namespace {
struct FnInfo {
  Function *F;
  DominatorTree DT;
  LoopInfo LI;
  AssumptionCache AC;
  TargetLibraryInfoImpl TII;
  TargetLibraryInfo TLI;
  ScalarEvolution SE;
  explicit FnInfo(const Function &f) : F(const_cast<Function *>(&f)), DT(*F), LI(DT), AC(*F), TII(Triple(F->getParent()->getTargetTriple())), TLI(TII), SE(*F, TLI, AC, DT, LI) {}
  Loop *loopOf(const Instruction *I) { return LI.getLoopFor(I->getParent()); }
  std::vector<Loop *> loops() { std::vector<Loop *> v; for (auto *L : LI.getLoopsInPreorder()) v.push_back(L); return v; }
};

// value of an expression when some of its inputs are given (constant folding)
inline std::optional<APInt> fold(const Value *v, const std::map<const Value *, APInt> &k, int depth = 12) {
  auto it = k.find(v);
  if (it != k.end()) return it->second;
  if (auto *C = dyn_cast<ConstantInt>(v)) return C->getValue();
  if (!v->getType()->isIntegerTy() || !depth) return {};
  unsigned w = v->getType()->getIntegerBitWidth();
  if (auto *C = dyn_cast<CastInst>(v)) {
    auto o = fold(C->getOperand(0), k, depth - 1);
    if (!o) return {};
    if (isa<ZExtInst>(C)) return o->zext(w);
    if (isa<SExtInst>(C)) return o->sext(w);
    if (isa<TruncInst>(C)) return o->trunc(w);
    return {};
  }
  if (auto *Fr = dyn_cast<FreezeInst>(v)) return fold(Fr->getOperand(0), k, depth - 1);
  if (auto *I = dyn_cast<ICmpInst>(v)) {
    auto a = fold(I->getOperand(0), k, depth - 1), b = fold(I->getOperand(1), k, depth - 1);
    if (!a || !b) return {};
    return APInt(1, ICmpInst::compare(*a, *b, I->getPredicate()));
  }
  if (auto *B = dyn_cast<BinaryOperator>(v)) {
    auto a = fold(B->getOperand(0), k, depth - 1), b = fold(B->getOperand(1), k, depth - 1);
    if (!a || !b) return {};
    switch (B->getOpcode()) {
    case Instruction::Add: return *a + *b;
    case Instruction::Sub: return *a - *b;
    case Instruction::Mul: return *a * *b;
    case Instruction::And: return *a & *b;
    case Instruction::Or: return *a | *b;
    case Instruction::Xor: return *a ^ *b;
    case Instruction::Shl: return b->ult(w) ? a->shl(*b) : APInt(w, 0);
    case Instruction::LShr: return b->ult(w) ? a->lshr(*b) : APInt(w, 0);
    case Instruction::AShr: return b->ult(w) ? a->ashr(*b) : APInt(w, 0);
    default: return {};
    }
  }
  if (auto *S = dyn_cast<SelectInst>(v)) {
    auto c = fold(S->getCondition(), k, depth - 1);
    if (!c) return {};
    return fold(c->isZero() ? S->getFalseValue() : S->getTrueValue(), k, depth - 1);
  }
  return {};
}

// the ways through the body of a loop: from the header back to it (or out of it), with the branches taken
struct Way {
  std::vector<const BasicBlock *> blocks;
  std::map<const Value *, bool> cond; // branch conditions and what they were
  const BasicBlock *to = nullptr;     // the header again, or a block outside
  std::vector<const StoreInst *> stores;
  // the value a value has on this way (phis inside the body and selects resolved)
  const Value *value(const Value *v) const {
    for (int n = 0; n < 40; n++) {
      if (auto *Ph = dyn_cast<PHINode>(v)) {
        size_t i = 0;
        for (; i < blocks.size(); i++) if (blocks[i] == Ph->getParent()) break;
        if (i == 0 || i == blocks.size()) return v;
        v = Ph->getIncomingValueForBlock(blocks[i - 1]);
      } else if (auto *S = dyn_cast<SelectInst>(v)) {
        auto it = cond.find(S->getCondition());
        if (it == cond.end()) return v;
        v = it->second ? S->getTrueValue() : S->getFalseValue();
      } else if (isa<CastInst>(v)) v = cast<CastInst>(v)->getOperand(0);
      else return v;
    }
    return v;
  }
  // what a header phi becomes
  const Value *next(const PHINode *Ph) const { return value(Ph->getIncomingValueForBlock(blocks.back())); }
};
// `given`: conditions whose outcome is assumed
inline std::vector<Way> ways(Loop *L, const std::map<const Value *, bool> &given, unsigned cap = 200) {
  std::vector<Way> out;
  std::function<void(const BasicBlock *, Way)> go = [&](const BasicBlock *B, Way w) {
    if (out.size() >= cap) return;
    if (std::find(w.blocks.begin(), w.blocks.end(), B) != w.blocks.end()) return; // an inner loop: one turn
    w.blocks.push_back(B);
    for (auto &I : *B) if (auto *S = dyn_cast<StoreInst>(&I)) w.stores.push_back(S);
    auto *T = B->getTerminator();
    auto step = [&](const BasicBlock *s, Way x) {
      if (s == L->getHeader() || !L->contains(s)) { x.to = s; out.push_back(std::move(x)); }
      else go(s, std::move(x));
    };
    if (auto *Br = dyn_cast<BranchInst>(T); Br && Br->isConditional()) {
      for (int t = 1; t >= 0; t--) {
        std::optional<bool> known;
        const Value *c = Br->getCondition();
        auto it = w.cond.find(c);
        if (it != w.cond.end()) known = it->second;
        std::map<const Value *, APInt> k;
        for (auto &x : w.cond) if (x.first->getType()->isIntegerTy(1)) k.insert_or_assign(x.first, APInt(1, x.second));
        if (!known) if (auto f = fold(c, k)) known = f->isOne();
        if (!known) if (auto *K = dyn_cast<ConstantInt>(w.value(c))) known = K->isOne();
        if (known && *known != (t == 1)) continue;
        Way x = w;
        x.cond[c] = t;
        step(Br->getSuccessor(t ? 0 : 1), std::move(x));
      }
      return;
    }
    for (auto *s : successors(B)) step(s, w);
  };
  Way w;
  w.cond = given;
  go(L->getHeader(), w);
  return out;
}

// An expression in a normal form: sums and products flattened and sorted, casts dropped, shifts left as products.
// name() gives the leaves their names ("" : look inside); values it cannot look into become "?".
struct Norm {
  Walk &W;
  const WState &S;
  std::function<std::string(const Value *)> name;
  std::string str(const Value *v, int depth = 24) const {
    if (!isa<ConstantInt>(v)) if (std::string n = name(v); !n.empty() && n != "?") return n;
    v = W.canon(S, v);
    if (auto *K = dyn_cast<ConstantInt>(v)) return std::to_string(K->getValue().getBitWidth() <= 64 ? (long)K->getSExtValue() : (long)K->getValue().trunc(64).getSExtValue());
    if (std::string n = name(v); !n.empty()) return n;
    if (!depth) return "?";
    auto sub = [&](const Value *x) { return str(x, depth - 1); };
    if (auto *C = dyn_cast<CastInst>(v)) {
      std::string a = sub(C->getOperand(0));
      // bits cut off inside the computation change its result (the value stored may be cut to its field)
      if (isa<TruncInst>(C) && depth != 24 && (a == "T" || a.find('(') != std::string::npos)) {
        unsigned w = C->getType()->getScalarSizeInBits();
        auto r = W.get(S, C->getOperand(0));
        if (r.getUnsignedMax().getActiveBits() > w && !(r.getSignedMin().isNegative() && r.getSignedMin().getSignificantBits() <= w && r.getSignedMax().getSignificantBits() <= w))
          return "cut" + std::to_string(w) + "(" + a + ")";
      }
      return a;
    }
    if (auto *C = dyn_cast<FreezeInst>(v)) return sub(C->getOperand(0));
    auto isNum = [](const std::string &s) { return !s.empty() && (isdigit(s[0]) || (s[0] == '-' && s.size() > 1)); };
    auto args = [](const std::string &s) { // of f(a,b,..)
      std::vector<std::string> r;
      int d = 0;
      std::string cur;
      for (size_t i = s.find('(') + 1; i + 1 < s.size(); i++) {
        if (s[i] == '(') d++;
        if (s[i] == ')') d--;
        if (s[i] == ',' && !d) { r.push_back(cur); cur.clear(); } else cur += s[i];
      }
      r.push_back(cur);
      return r;
    };
    auto mul = [&](std::string a, std::string b) {
      std::vector<std::string> t;
      long k = 1;
      for (auto &x : {a, b}) {
        std::vector<std::string> y = x.substr(0, 4) == "mul(" ? args(x) : std::vector<std::string>{x};
        for (auto &z : y) if (isNum(z)) k *= std::stol(z); else t.push_back(z);
      }
      if (!k) return std::string("0");
      std::sort(t.begin(), t.end());
      if (k != 1) t.insert(t.begin(), std::to_string(k));
      if (t.empty()) return std::string("1");
      if (t.size() == 1) return t[0];
      std::string r = "mul(";
      for (size_t i = 0; i < t.size(); i++) r += (i ? "," : "") + t[i];
      return r + ")";
    };
    auto add = [&](std::string a, std::string b) {
      std::vector<std::string> t;
      long k = 0;
      for (auto &x : {a, b}) {
        std::vector<std::string> y = x.substr(0, 4) == "add(" ? args(x) : std::vector<std::string>{x};
        for (auto &z : y) if (isNum(z)) k += std::stol(z); else t.push_back(z);
      }
      for (size_t i = 0; i < t.size(); i++) // x + -1 * x
        for (size_t j = 0; j < t.size(); j++)
          if (i != j && mul(t[i], "-1") == t[j]) { t.erase(t.begin() + std::max(i, j)); t.erase(t.begin() + std::min(i, j)); i = -1; break; }
      std::sort(t.begin(), t.end());
      if (k) t.insert(t.begin(), std::to_string(k));
      if (t.empty()) return std::string("0");
      if (t.size() == 1) return t[0];
      std::string r = "add(";
      for (size_t i = 0; i < t.size(); i++) r += (i ? "," : "") + t[i];
      return r + ")";
    };
    auto bin = [&](unsigned op, const Value *x, const Value *y) -> std::string {
      std::string a = sub(x), b = sub(y);
      switch (op) {
      case Instruction::Add: return add(a, b);
      case Instruction::Sub: {
        std::string r = a;
        for (auto &z : b.substr(0, 4) == "add(" ? args(b) : std::vector<std::string>{b}) r = add(r, mul("-1", z));
        return r;
      }
      case Instruction::Mul: return mul(a, b);
      case Instruction::Shl: if (isNum(b)) return mul(a, std::to_string(1l << (std::stol(b) & 63))); return "shl(" + a + "," + b + ")";
      case Instruction::LShr: case Instruction::AShr: return "shr(" + a + "," + b + ")";
      case Instruction::And: return a < b ? "and(" + a + "," + b + ")" : "and(" + b + "," + a + ")";
      case Instruction::Or: return a < b ? "or(" + a + "," + b + ")" : "or(" + b + "," + a + ")";
      case Instruction::UDiv: case Instruction::SDiv:
        if (isNum(b) && std::stol(b) > 0 && !(std::stol(b) & (std::stol(b) - 1))) return "shr(" + a + "," + std::to_string(__builtin_ctzl(std::stol(b))) + ")";
        return "div(" + a + "," + b + ")";
      case Instruction::URem: case Instruction::SRem:
        if (isNum(b) && std::stol(b) > 0 && !(std::stol(b) & (std::stol(b) - 1))) { std::string m = std::to_string(std::stol(b) - 1); return a < m ? "and(" + a + "," + m + ")" : "and(" + m + "," + a + ")"; }
        return "rem(" + a + "," + b + ")";
      default: return "?";
      }
    };
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      std::string a = bin(B->getOpcode(), B->getOperand(0), B->getOperand(1));
      unsigned w = B->getType()->getScalarSizeInBits(), op = B->getOpcode();
      if (w < 64 && (op == Instruction::Mul || op == Instruction::Shl || op == Instruction::Add)) {
        auto x = W.get(S, B->getOperand(0)), y = W.get(S, B->getOperand(1));
        unsigned bx = x.getUnsignedMax().getActiveBits(), by = y.getUnsignedMax().getActiveBits();
        bool fits = op == Instruction::Mul ? bx + by <= w : op == Instruction::Shl ? bx + y.getUnsignedMax().getLimitedValue(99) <= w : std::max(bx, by) < w;
        if (!fits && op == Instruction::Mul) { bool o; (void)x.getUnsignedMax().umul_ov(y.getUnsignedMax(), o); fits = !o; }
        if (!fits && op == Instruction::Add) fits = !(x.signedAddMayOverflow(y) != ConstantRange::OverflowResult::NeverOverflows);
        if (!fits) return "wrap" + std::to_string(w) + "(" + a + ")";
      }
      return a;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(v))
      if (auto *O = dyn_cast<WithOverflowInst>(E->getAggregateOperand()); O && E->getNumIndices() == 1 && E->getIndices()[0] == 0) return bin(O->getBinaryOp(), O->getLHS(), O->getRHS());
    return "?";
  }
};
// the values a value can have, by what its selects and limits choose, each with what is then known
inline void arms(Walk &W, WState S, const Value *v, const std::function<bool(WState &, const Value *)> &f, bool &ok, int depth = 6) {
  v = W.canon(S, v);
  while (isa<CastInst>(v)) v = W.canon(S, cast<CastInst>(v)->getOperand(0));
  if (auto *Se = dyn_cast<SelectInst>(v); Se && depth) {
    for (int t = 1; t >= 0 && ok; t--) {
      WState S2 = S;
      if (W.assume(S2, Se->getCondition(), t)) arms(W, S2, t ? Se->getTrueValue() : Se->getFalseValue(), f, ok, depth - 1);
    }
    return;
  }
  if (auto *M = dyn_cast<MinMaxIntrinsic>(v); M && depth && isa<ConstantInt>(M->getRHS())) {
    auto &K = cast<ConstantInt>(M->getRHS())->getValue();
    for (int t = 1; t >= 0 && ok; t--) {
      WState S2 = S;
      auto r = ConstantRange::makeAllowedICmpRegion(t ? M->getPredicate() : ICmpInst::getNonStrictPredicate(ICmpInst::getSwappedPredicate(M->getPredicate())), ConstantRange(K));
      if (W.refine(S2, M->getLHS(), r)) arms(W, S2, t ? M->getLHS() : M->getRHS(), f, ok, depth - 1);
    }
    return;
  }
  if (!f(S, v)) ok = false;
}
} // namespace
