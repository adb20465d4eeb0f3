// Simulation of a function: what each of its paths stores in a watched structure and calls, for given ranges of its inputs,
// and the comparison of that with what a specification says.
#pragma once
#include "cg.h"
#include "report.h"
#include "sym.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/TargetParser/Triple.h"
using namespace sv;
using CR = ConstantRange;

namespace {
struct Event {
  std::string fn;
  std::vector<Bits> args;
  std::vector<const Value *> ptrs;
  std::vector<std::pair<Bits, int>> square; // argument = x * x >> k: the bits of x, k (-1: another form)
  const CallBase *at;
};
// value = (sum of coefficient * input + c) >> k
struct Lin {
  bool ok = false;
  std::map<int, long> t;
  long c = 0;
  int k = 0;
  bool operator==(const Lin &o) const { return ok && o.ok && t == o.t && c == o.c && k == o.k; }
};
struct Outcome {
  std::vector<const Event *> events;
  std::map<std::string, Bits> cells; // field -> what it holds at the end
  std::map<std::string, Lin> lin;    // the same as a linear form
  Bits ret;
  std::vector<std::string> path;
  const Instruction *at;
  bool stray = false; // a store to a cell of the watched structure that is not a fixed one
  std::string strayAt;
};
struct In {
  std::map<std::string, CR> cells; // field -> range at entry
  std::map<unsigned, CR> args;
};

struct Sim {
  Program &P;
  ModRef &MR;
  const Function &F;
  Syms sy;
  std::map<std::string, std::unique_ptr<Argument>> ph;       // field -> its value at entry
  struct Cell { const Value *ptr; std::string field; };
  std::vector<Cell> cells;
  std::set<std::string> owners; // structures whose fields are watched
  std::function<bool(const Addr &)> mine;
  std::set<const Instruction *> strays;
  std::vector<std::unique_ptr<Event>> pool;
  std::map<std::string, int> ids;
  std::set<std::string> ignore; // calls that are no events
  long walks = 0, outs = 0;
  Sim(Program &P, ModRef &MR, const Function &F, const std::string &st, std::function<bool(const Addr &)> m) : P(P), MR(MR), F(F), mine(m) {
    owners.insert(st);
    for (const Instruction &I : instructions(F)) {
      const Value *p = nullptr;
      Type *ty = nullptr;
      bool store = false;
      if (auto *L = dyn_cast<LoadInst>(&I)) p = L->getPointerOperand(), ty = L->getType();
      else if (auto *S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand(), ty = S->getValueOperand()->getType(), store = true;
      else if (auto *M = dyn_cast<MemIntrinsic>(&I)) {
        Addr A = decompose(M->getDest());
        for (auto &s : A.steps) if (s.k == Step::Field && s.st == st) strays.insert(&I);
        continue;
      }
      if (!p) continue;
      Addr A = decompose(p);
      if (A.steps.empty() || A.steps.back().k != Step::Field || A.steps.back().st != st) continue;
      if (!m(A)) { if (store) strays.insert(&I); continue; }
      std::string f = A.field(P);
      f = f.substr(f.find('.') + 1);
      if (!ty->isIntegerTy()) continue;
      auto &a = ph[f];
      if (!a) a.reset(new Argument(ty));
      cells.push_back({p, f});
    }
  }
  Bits sym(const std::string &f, const CR *r = nullptr) {
    auto it = ph.find(f);
    if (it == ph.end()) return Bits::unknown(8);
    unsigned w = it->second->getType()->getIntegerBitWidth();
    return Syms::leaf(sy.of(it->second.get()), w, r ? *r : CR::getFull(w));
  }
  Bits arg(unsigned n, const CR *r = nullptr) {
    auto *A = F.getArg(n);
    unsigned w = A->getType()->getIntegerBitWidth();
    return Syms::leaf(sy.of(A), w, r ? *r : CR::getFull(w));
  }
  // linear form of a value; the ranges show that no step wraps (except the final narrowing, which keeps the value's low bits)
  Lin lin(Walk &W, const WState &S, const Value *v, int depth = 12) {
    Lin r;
    v = W.canon(S, v);
    if (!v->getType()->isIntegerTy() || v->getType()->getIntegerBitWidth() > 64) return r;
    if (auto *K = dyn_cast<ConstantInt>(v)) { r.ok = true; r.c = K->getSExtValue(); return r; }
    auto *I = dyn_cast<Instruction>(v);
    auto leaf = [&] { Lin q; q.ok = true; q.t[sy.of(v)] = 1; return q; };
    if (!I || !depth) return leaf();
    auto op = [&](unsigned i) { return lin(W, S, I->getOperand(i), depth - 1); };
    auto comb = [](const Lin &a, const Lin &b, long sg) {
      Lin q;
      if (!a.ok || !b.ok || a.k || b.k) return q;
      q = a;
      q.c += sg * b.c;
      for (auto &x : b.t) { q.t[x.first] += sg * x.second; if (!q.t[x.first]) q.t.erase(x.first); }
      return q;
    };
    auto scale = [](Lin a, long f) { if (a.k) a.ok = false; for (auto &x : a.t) x.second *= f; a.c *= f; if (!f) a.t.clear(); return a; };
    auto K = [&](unsigned i) { return dyn_cast<ConstantInt>(I->getOperand(i)); };
    switch (I->getOpcode()) {
    case Instruction::ZExt: {
      auto rg = W.get(S, I->getOperand(0));
      if (rg.isAllNonNegative() || !isa<Instruction>(W.canon(S, I->getOperand(0)))) return op(0);
      return leaf();
    }
    case Instruction::SExt: case Instruction::Trunc: case Instruction::Freeze: return op(0);
    case Instruction::Add: return comb(op(0), op(1), 1);
    case Instruction::Sub: return comb(op(0), op(1), -1);
    case Instruction::Mul: {
      Lin a = op(0), b = op(1);
      if (b.ok && b.t.empty() && !b.k) return scale(a, b.c);
      if (a.ok && a.t.empty() && !a.k) return scale(b, a.c);
      return leaf();
    }
    case Instruction::Shl: if (auto *k = K(1); k && k->getZExtValue() < 32) return scale(op(0), 1l << k->getZExtValue()); return leaf();
    case Instruction::Or: {
      Bits a = sy.eval(W, S, I->getOperand(0)), b = sy.eval(W, S, I->getOperand(1));
      for (unsigned i = 0; i < a.w(); i++) if (a.b[i] != 0 && b.b[i] != 0) return leaf();
      return comb(op(0), op(1), 1);
    }
    case Instruction::AShr: case Instruction::LShr:
      if (auto *k = K(1); k && k->getZExtValue() < 32) { Lin a = op(0); if (a.k) a.ok = false; a.k = k->getZExtValue(); return a; }
      return leaf();
    default: return leaf();
    }
  }
  std::vector<Outcome> run(const In &in) {
    std::vector<Outcome> out;
    Walk W(P, F, MR);
    W.maxStates = 40;
    WState init;
    for (auto &a : in.args) init.fact.insert_or_assign(F.getArg(a.first), a.second);
    for (auto &kv : ph) {
      auto it = in.cells.find(kv.first);
      if (it != in.cells.end() && !it->second.isFullSet()) init.fact.insert_or_assign(kv.second.get(), it->second);
    }
    for (auto &c : cells) {
      auto *a = ph[c.field].get();
      init.mem[W.cell(init, c.ptr)] = a;
    }
    std::vector<int> order;
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
      if (strays.count(I)) { S.ts.push_back(intern("stray " + loc(I), nullptr)); return true; }
      auto *C = dyn_cast<CallBase>(I);
      if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) return true;
      bool unk;
      std::string slot;
      auto cs = callees(P, C, &unk, &slot);
      std::string n = calleeName(C);
      if (n.empty()) n = slot.empty() ? "a computed function" : slot;
      if (ignore.count(n)) return true;
      if (!unk && !cs.empty()) {
        bool rel = false;
        for (auto *G : cs) {
          if (G->isDeclaration()) rel = true;
          auto f = MR.mods.find(G);
          if (f == MR.mods.end()) rel = true;
          else for (auto &k : f->second) {
            std::string st = k.substr(0, k.find('#'));
            if (k == "*" || owners.count(st) || st == "s_synth_tag" || st == "s_synth_channel_tag" || st == "s_synth_voice_tag" || st == "s_voice_mgr_tag") rel = true;
          }
        }
        if (!rel) return true;
      }
      auto E = std::make_unique<Event>();
      E->fn = n;
      E->at = C;
      std::string key = n;
      for (auto &a : C->args()) {
        Bits b = a->getType()->isIntegerTy() ? sy.eval(W, S, a) : Bits::unknown(64);
        const Value *p = a->getType()->isPointerTy() ? W.canon(S, a) : nullptr;
        key += "," + b.str() + "/" + std::to_string((uintptr_t)p);
        E->args.push_back(b);
        std::pair<Bits, int> sq{Bits::unknown(64), -1};
        if (a->getType()->isIntegerTy()) {
          const Value *v = W.canon(S, a);
          while (auto *K = dyn_cast<CastInst>(v)) v = W.canon(S, K->getOperand(0));
          auto *Sh = dyn_cast<BinaryOperator>(v);
          auto *k = Sh ? dyn_cast<ConstantInt>(Sh->getOperand(1)) : nullptr;
          auto *Mu = Sh ? dyn_cast<BinaryOperator>(W.canon(S, Sh->getOperand(0))) : nullptr;
          if (k && Mu && (Sh->getOpcode() == Instruction::AShr || Sh->getOpcode() == Instruction::LShr) && Mu->getOpcode() == Instruction::Mul) {
            Bits x = sy.eval(W, S, Mu->getOperand(0)), y = sy.eval(W, S, Mu->getOperand(1));
            sq = {x == y ? x : Bits::unknown(x.w()), (int)k->getZExtValue()};
          }
        }
        E->square.push_back(sq);
        key += "/" + sq.first.str();
        E->ptrs.push_back(p);
      }
      key += "@" + std::to_string((uintptr_t)C);
      S.ts.push_back(intern(key, std::move(E)));
      if (S.ts.size() > 12) { S.ts.resize(12); return false; } // a loop of effects: reported as a mismatch
      return true;
    };
    W.ret = [&](const ReturnInst *Rt, WState &S) {
      Outcome o;
      o.at = Rt;
      o.path = Walk::path(S);
      for (int t : S.ts) {
        if (!pool[t]) { o.stray = true; for (auto &kv : ids) if (kv.second == t) o.strayAt = kv.first; continue; }
        o.events.push_back(pool[t].get());
      }
      for (auto &c : cells) {
        unsigned w = ph[c.field]->getType()->getIntegerBitWidth();
        auto it = S.mem.find(W.cell(S, c.ptr));
        Bits b = Bits::unknown(w);
        if (it != S.mem.end() && it->second->getType()->isIntegerTy(w)) b = sy.eval(W, S, it->second);
        auto f = o.cells.find(c.field);
        if (f == o.cells.end() || !f->second.known()) o.cells[c.field] = b;
        if (it != S.mem.end() && it->second->getType()->isIntegerTy(w)) if (Lin l = lin(W, S, it->second); l.ok) o.lin[c.field] = l;
      }
      if (Rt->getReturnValue() && Rt->getReturnValue()->getType()->isIntegerTy()) o.ret = sy.eval(W, S, Rt->getReturnValue());
      out.push_back(std::move(o));
    };
    W.run(init);
    walks++;
    outs += out.size();
    return out;
  }
  int intern(const std::string &k, std::unique_ptr<Event> e) {
    auto it = ids.find(k);
    if (it != ids.end()) return it->second;
    int n = pool.size();
    pool.push_back(std::move(e));
    return ids[k] = n;
  }
};

CR range8(unsigned lo, unsigned hi) { return CR::getNonEmpty(APInt(8, lo), APInt(8, (hi + 1) & 0xff)); }
std::string hex(unsigned v) { char t[16]; snprintf(t, sizeof t, "%02x", v); return t; }
std::string span(unsigned a, unsigned b) { return a == b ? hex(a) : hex(a) + ".." + hex(b); }

const unsigned LOCATE = 1, MUTE = 2, META = 3, PLAY = 0;
const char *modeName[] = {"playing", "locating", "muted", "scanning for metadata"};

// 0 exact expectation of a cell: unchanged, a given value, zero, non-zero, anything
struct Want { enum K { Same, Is, Zero, NonZero, Any, Linear, Mask } k; Bits b; Lin l = {}; uint64_t mask = 0; /* Mask: only these bits are compared */ };

struct SimRule {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  long cases = 0, checks = 0, words = 0;
  SimRule(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P) {}

  static bool nonZero(const Bits &b) { for (long x : b.b) if (x == 1) return true; return false; }
  static bool zero(const Bits &b) { return b.constant() && b.value() == 0; }
  // compares one outcome with the expectation; "" if it fits
  std::string compare(Sim &S, const In &in, const Outcome &o, const std::map<std::string, Want> &want) {
    for (auto &w : want) {
      auto it = o.cells.find(w.first);
      checks++;
      auto rg = in.cells.find(w.first);
      Bits old = S.sym(w.first, rg == in.cells.end() ? nullptr : &rg->second);
      Bits now = it == o.cells.end() ? old : it->second;
      switch (w.second.k) {
      case Want::Any: break;
      case Want::Same: if (!(now == old && now.known())) return w.first + " is changed"; break;
      case Want::Is: if (!(now == w.second.b && now.known())) return w.first + " does not become the value it should" + (getenv("DBG") ? " (" + now.str() + " for " + w.second.b.str() + ")" : ""); break;
      case Want::Mask:
        for (unsigned i = 0; i < now.w(); i++)
          if ((w.second.mask >> i & 1) && now.b[i] != w.second.b.b[i]) return w.first + " does not become what it should (bit " + std::to_string(i) + ")";
        break;
      case Want::Linear: {
        auto l = o.lin.find(w.first);
        if (l == o.lin.end() || !(l->second == w.second.l)) {
          std::string d;
          if (getenv("DBG") && l != o.lin.end()) { d = " >>" + std::to_string(l->second.k) + " +" + std::to_string(l->second.c); for (auto &x : l->second.t) d += " " + std::to_string(x.second) + "*s" + std::to_string(x.first); }
          return w.first + " does not become the value it should" + d;
        }
        break;
      }
      case Want::Zero: if (!zero(now)) return w.first + " is not cleared"; break;
      case Want::NonZero: if (!nonZero(now)) return w.first + " is not set"; break;
      }
    }
    if (o.stray) return "another " + *S.owners.begin() + " is written (" + o.strayAt.substr(6) + ")";
    return "";
  }
  struct Call { std::string fn; std::vector<Bits> args; }; // integer arguments in order
  std::string compareEvents(const Outcome &o, const std::vector<Call> &want) {
    checks++;
    for (size_t i = 0; i < o.events.size() || i < want.size(); i++) {
      if (i >= o.events.size()) return want[i].fn + " is not called";
      if (i >= want.size()) return o.events[i]->fn + " is called (" + loc(o.events[i]->at) + ")";
      if (o.events[i]->fn != want[i].fn) return o.events[i]->fn + " is called instead of " + want[i].fn + " (" + loc(o.events[i]->at) + ")";
      std::vector<Bits> ints;
      for (size_t k = 0; k < o.events[i]->args.size(); k++) if (!o.events[i]->ptrs[k]) ints.push_back(o.events[i]->args[k]);
      for (size_t k = 0; k < want[i].args.size(); k++) {
        if (k >= ints.size()) return want[i].fn + " gets too few arguments";
        unsigned w = std::min(ints[k].w(), want[i].args[k].w());
        Bits a = ints[k].zext(64), b = want[i].args[k].zext(64);
        (void)w;
        if (!(a == b) || !a.known()) return want[i].fn + " gets a wrong argument " + std::to_string(k + 1) + " (" + loc(o.events[i]->at) + ")" + (getenv("DBG") ? " " + a.str() + " for " + b.str() : "");
      }
    }
    return "";
  }
  void fail(const Function &F, const std::string &key, const std::string &what, const std::string &why, const Outcome &o) {
    R.add(key, o.at ? loc(o.at) : locF(&F), what + ": " + why, o.path);
  }
};
} // namespace
