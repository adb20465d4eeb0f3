// Call graph with calls through interface tables resolved.
#pragma once
#include "ir.h"
namespace sv {
struct CG {
  Program &P;
  std::map<const Function *, std::vector<std::pair<const Function *, const CallBase *>>> out;
  std::map<const Function *, std::vector<std::pair<std::string, const CallBase *>>> unknown; // through a pointer we cannot resolve
  CG(Program &P) : P(P) {
    for (Function &F : *P.M)
      for (Instruction &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I)) {
          if (isDbg(C) || isField0(C)) continue;
          bool unk;
          std::string slot;
          auto cs = callees(P, C, &unk, &slot);
          for (auto *G : cs) out[&F].push_back({G, C});
          if (unk) unknown[&F].push_back({slot, C});
        }
  }
  // functions reachable from the roots, with the call that first reached them
  std::map<const Function *, std::pair<const Function *, const CallBase *>> reach(const std::vector<const Function *> &roots) {
    std::map<const Function *, std::pair<const Function *, const CallBase *>> r;
    std::vector<const Function *> w;
    for (auto *f : roots) r[f] = {nullptr, nullptr}, w.push_back(f);
    for (size_t i = 0; i < w.size(); i++)
      for (auto &e : out[w[i]])
        if (!r.count(e.first)) r[e.first] = {w[i], e.second}, w.push_back(e.first);
    return r;
  }
  // the same, but code a caller's constant arguments exclude is not followed
  using Consts = std::map<unsigned, APInt>;
  using Node = std::pair<const Function *, std::vector<std::pair<unsigned, uint64_t>>>;
  struct Edge { const Function *to; const CallBase *at; Node node; };
  std::map<Node, std::vector<Edge>> memo;
  static std::optional<APInt> eval(const Value *v, const Consts &k, int depth = 8) {
    if (auto *C = dyn_cast<ConstantInt>(v)) return C->getValue();
    if (!v->getType()->isIntegerTy() || !depth) return {};
    if (auto *A = dyn_cast<Argument>(v)) { auto it = k.find(A->getArgNo()); if (it == k.end()) return {}; return it->second; }
    unsigned w = v->getType()->getIntegerBitWidth();
    if (auto *C = dyn_cast<CastInst>(v)) {
      auto o = eval(C->getOperand(0), k, depth - 1);
      if (!o) return {};
      if (isa<ZExtInst>(C)) return o->zext(w);
      if (isa<SExtInst>(C)) return o->sext(w);
      if (isa<TruncInst>(C)) return o->trunc(w);
      return {};
    }
    if (auto *I = dyn_cast<ICmpInst>(v)) {
      auto a = eval(I->getOperand(0), k, depth - 1), b = eval(I->getOperand(1), k, depth - 1);
      if (!a || !b) return {};
      return APInt(1, ICmpInst::compare(*a, *b, I->getPredicate()));
    }
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      auto a = eval(B->getOperand(0), k, depth - 1), b = eval(B->getOperand(1), k, depth - 1);
      if (B->getOpcode() == Instruction::And && ((a && a->isZero()) || (b && b->isZero()))) return APInt::getZero(w);
      if (!a || !b) return {};
      switch (B->getOpcode()) {
      case Instruction::Add: return *a + *b;
      case Instruction::Sub: return *a - *b;
      case Instruction::And: return *a & *b;
      case Instruction::Or: return *a | *b;
      case Instruction::Xor: return *a ^ *b;
      default: return {};
      }
    }
    if (auto *S = dyn_cast<SelectInst>(v)) {
      auto c = eval(S->getCondition(), k, depth - 1);
      if (!c) return {};
      return eval(c->isZero() ? S->getFalseValue() : S->getTrueValue(), k, depth - 1);
    }
    return {};
  }
  static std::set<const BasicBlock *> liveBlocks(const Function *F, const Consts &k) {
    std::set<const BasicBlock *> live;
    std::vector<const BasicBlock *> w{&F->getEntryBlock()};
    live.insert(w[0]);
    for (size_t i = 0; i < w.size(); i++) {
      auto *T = w[i]->getTerminator();
      std::vector<const BasicBlock *> ss;
      if (auto *B = dyn_cast<BranchInst>(T); B && B->isConditional()) {
        if (auto c = eval(B->getCondition(), k)) ss.push_back(B->getSuccessor(c->isZero() ? 1 : 0));
      } else if (auto *S = dyn_cast<SwitchInst>(T)) {
        if (auto c = eval(S->getCondition(), k)) ss.push_back(S->findCaseValue(ConstantInt::get(S->getContext(), *c))->getCaseSuccessor());
      }
      if (ss.empty()) for (auto *s : successors(w[i])) ss.push_back(s);
      for (auto *s : ss) if (live.insert(s).second) w.push_back(s);
    }
    return live;
  }
  const std::vector<Edge> &edges(const Node &n) {
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    std::vector<Edge> v;
    if (!n.first->isDeclaration()) {
      Consts k;
      for (auto &a : n.second) k.insert_or_assign(a.first, APInt(n.first->getArg(a.first)->getType()->getIntegerBitWidth(), a.second));
      auto live = liveBlocks(n.first, k);
      for (auto &e : out[n.first]) {
        if (!live.count(e.second->getParent())) continue;
        Node m{e.first, {}};
        for (unsigned i = 0; i < e.second->arg_size() && i < e.first->arg_size(); i++)
          if (e.first->getArg(i)->getType()->isIntegerTy() && e.first->getArg(i)->getType() == e.second->getArgOperand(i)->getType() && e.first->getArg(i)->getType()->getIntegerBitWidth() <= 64)
            if (auto c = eval(e.second->getArgOperand(i), k)) m.second.push_back({i, c->getZExtValue()});
        v.push_back({e.first, e.second, m});
      }
    }
    return memo[n] = v;
  }
  std::map<const Function *, std::pair<const Function *, const CallBase *>> reachConst(const std::vector<const Function *> &roots) {
    std::map<const Function *, std::pair<const Function *, const CallBase *>> r;
    std::vector<Node> w;
    std::set<Node> seen;
    for (auto *f : roots) r[f] = {nullptr, nullptr}, w.push_back({f, {}}), seen.insert({f, {}});
    for (size_t i = 0; i < w.size(); i++) {
      auto es = edges(w[i]);
      for (auto &e : es) {
        if (!r.count(e.to)) r[e.to] = {w[i].first, e.at};
        if (seen.insert(e.node).second) w.push_back(e.node);
      }
    }
    return r;
  }
};
} // namespace sv

namespace sv {
inline std::vector<std::string> pathTo(const std::map<const Function *, std::pair<const Function *, const CallBase *>> &r, const Function *f) {
  std::vector<std::string> p;
  while (f) {
    auto it = r.find(f);
    if (it == r.end()) break;
    p.push_back(it->second.second ? loc(it->second.second) + " calls " + f->getName().str() : "entry point " + f->getName().str());
    f = it->second.first;
  }
  std::reverse(p.begin(), p.end());
  return p;
}
} // namespace sv
