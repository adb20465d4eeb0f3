// Which sound a program change selects: on every path the searches made, in order, and which element's region is taken.
#include "walk.h"
#include "sym.h"
#include "iter.h"

namespace {
using CR = ConstantRange;
struct Program_ {
  Program &P;
  Report &R;
  ModRef MR;
  long obligations = 0, cases = 0, paths = 0;
  Program_(Ctx &C, Report &R) : P(C.P), R(R), MR(C.P) {}
  struct Search {
    char kind; // D: a program of the loaded collection, B: a bank of the built-in sounds, P: a program of theirs
    Bits key;
    uint64_t prog; // B: the entry wanted (or 'sym' for the program asked for)
    bool same(const Search &o) const { return kind == o.kind && key == o.key && prog == o.prog; }
  };
  enum { Pos, Found, Elem, Bm, Stored, Num, Flags, N };
  const Value *bare(const Value *v) { while (isa<CastInst>(v) || isa<FreezeInst>(v)) v = cast<Instruction>(v)->getOperand(0); return v; }

  // the table an element lies in, and the element itself
  struct At { char kind = 0; const Value *root = nullptr, *ix = nullptr; };
  char tableOf(const Value *v, int d = 4) { // by the field it was loaded from
    v = stripCasts(v);
    if (auto *L = dyn_cast<LoadInst>(v)) {
      std::string f = decompose(L->getPointerOperand()).field(P);
      return f == "s_eas_dls_tag.pDLSPrograms" ? 'D' : f.size() > 10 && f.substr(f.size() - 10) == ".pPrograms" ? 'P' : f.size() > 7 && f.substr(f.size() - 7) == ".pBanks" ? 'B' : 0;
    }
    if (auto *G = dyn_cast<GEPOperator>(v)) return d ? tableOf(G->getPointerOperand(), d - 1) : 0;
    if (auto *Ph = dyn_cast<PHINode>(v)) {
      char k = 0;
      for (auto &u : Ph->incoming_values()) if (d) if (char x = tableOf(u.get(), d - 1)) k = x;
      return k;
    }
    return 0;
  }
  At at(Walk &W, const WState &S, const Value *ptr) {
    Addr A = decompose(ptr);
    At r;
    r.root = stripCasts(A.root);
    r.kind = tableOf(A.root);
    if (isa<LoadInst>(r.root)) r.root = nullptr; // the table itself
    for (auto &s : A.steps) if (s.k == Step::Index) { r.ix = bare(s.var); if (auto *c = W.canon(S, r.ix)) r.ix = bare(c); break; }
    if (r.root) r.root = W.canon(S, r.root);
    return r;
  }
  // all elements from the first to the last?
  void whole(FnInfo &fi, const Instruction *Ld, std::set<const Loop *> &done, const Function *F) {
    Loop *L = fi.LI.getLoopFor(Ld->getParent());
    std::string n = F->getName().str();
    if (!L) { R.add(n + ":all", loc(Ld), n + " looks at one element of a list of sounds only"); return; }
    if (!done.insert(L).second) return;
    obligations++;
    auto ptr = cast<LoadInst>(Ld)->getPointerOperand();
    Addr A = decompose(ptr);
    char kind = tableOf(A.root);
    std::string list = kind == 'D' ? "loaded programs" : kind == 'P' ? "programs" : "banks", num = kind == 'D' ? "numDLSPrograms" : kind == 'P' ? "numPrograms" : "numBanks";
    auto count = [&](const Value *v) { // a load of the number of elements
      auto *X = dyn_cast<LoadInst>(bare(v));
      if (!X) return false;
      std::string f = decompose(X->getPointerOperand()).field(P);
      return f.size() > num.size() && f.substr(f.size() - num.size()) == num;
    };
    auto rec = [&](const Value *v) { auto *AR = v->getType()->isIntegerTy() ? dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(bare(v)))) : nullptr; return AR && AR->getLoop() == L && AR->isAffine() ? AR : nullptr; };
    auto num_ = [&](const SCEV *s, long &k) { auto *c = dyn_cast<SCEVConstant>(s); if (c) k = c->getAPInt().getSExtValue(); return !!c; };
    bool start = false, bound = false;
    const Value *ix = nullptr;
    for (auto &s : A.steps) if (s.k == Step::Index && s.var && !isa<ConstantInt>(s.var)) ix = s.var;
    auto *Ph = dyn_cast<PHINode>(stripCasts(A.root));
    if (ix) {
      long a, d;
      if (auto *AR = rec(ix)) start = (num_(AR->getStart(), a) && a == 0 && num_(AR->getStepRecurrence(fi.SE), d) && d == 1);
      if (auto *AR = rec(ix); AR && !start) if (num_(AR->getStepRecurrence(fi.SE), d) && d == -1) start = true; // from the last: the bound decides
    } else if (Ph && Ph->getParent() == L->getHeader()) {
      start = true;
      for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) {
        auto *v = stripCasts(Ph->getIncomingValue(i));
        if (L->contains(Ph->getIncomingBlock(i))) { Addr S = decompose(v); start &= S.root == Ph && S.steps.size() == 1 && S.steps[0].k == Step::Index && isa<ConstantInt>(S.steps[0].var) && cast<ConstantInt>(S.steps[0].var)->isOne(); }
        else start &= isa<LoadInst>(v);
      }
    }
    SmallVector<BasicBlock *, 8> ex;
    L->getExitingBlocks(ex);
    bool odd = false;
    for (auto *E : ex) {
      auto *Br = dyn_cast<BranchInst>(E->getTerminator());
      if (!Br || !Br->isConditional()) continue;
      auto *Ic = dyn_cast<ICmpInst>(Br->getCondition());
      if (!Ic) continue;
      bool stay = L->contains(Br->getSuccessor(0));
      for (int sw = 0; sw < 2; sw++) {
        auto *x = Ic->getOperand(sw), *y = Ic->getOperand(1 - sw);
        auto p = sw ? Ic->getSwappedPredicate() : Ic->getPredicate();
        if (!stay) p = ICmpInst::getInversePredicate(p);
        long a, d;
        if (auto *AR = x->getType()->isIntegerTy() ? rec(x) : nullptr) {
          bool up = num_(AR->getStepRecurrence(fi.SE), d) && d == 1;
          if (up && num_(AR->getStart(), a)) {
            bool atHead = E == L->getHeader() && !L->isLoopLatch(E);
            bool lt = p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_SLT || p == ICmpInst::ICMP_NE;
            if (count(y) && lt && a == (atHead ? 0 : 1)) bound = true;
            else if (count(y) || (isa<BinaryOperator>(bare(y)))) odd = true;
          } else if (d == -1 && isa<ConstantInt>(y)) bound = true; // counted down from the number
        } else if (x->getType()->isPointerTy() && tableOf(x) && !isa<ConstantPointerNull>(y)) bound = true;
      }
    }
    if (!start || !bound || odd) R.add(n + ":all", loc(Ld), n + " does not look at all the " + list + " (" + (start ? "the end" : "the start") + ")");
    R.note("searches", list + " at " + loc(Ld));
  }

  void run() {
    auto *F = P.M->getFunction("VMProgramChange");
    if (!F || F->isDeclaration() || F->arg_size() != 4) { R.broken.push_back("VMProgramChange is not there"); return; }
    R.note("functions", "VMProgramChange");
    FnInfo fi(*F);
    std::set<const Loop *> done;
    bool dls = false;
    for (auto &I : instructions(F))
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        std::string f = decompose(L->getPointerOperand()).field(P);
        if (f == "s_program_tag.locale" || f == "s_bank_tag.locale") whole(fi, L, done, F);
        dls |= f == "s_program_tag.locale" && tableOf(decompose(L->getPointerOperand()).root) == 'D';
      }
    if (done.empty() || !dls) { R.broken.push_back("no search for a program"); return; }
    R.stats["search_loops"] = done.size();
    // banks: a fixed or a variable low part
    struct B { unsigned lo, hi; };
    std::vector<B> bs{{0x7800, 0x7800}, {0x7900, 0x7900}, {0, 0x3fff}, {0x4000, 0x5fff}, {0x6000, 0x6fff}, {0x7000, 0x77ff}, {0x7a00, 0x7bff}, {0x7c00, 0x7fff}};
    for (unsigned l = 1; l < 0x100; l <<= 1) bs.push_back({0x7800 + l, 0x7800 + 2 * l - 1}), bs.push_back({0x7900 + l, 0x7900 + 2 * l - 1});
    for (auto b : bs)
      for (int drum = 0; drum < 2; drum++)
        for (int coll = 0; coll < 2; coll++)
          for (int pz = 0; pz < 2; pz++) one(*F, b.lo, b.hi, drum, coll, pz);
  }
  void one(Function &F, unsigned lo, unsigned hi, int drum, int coll, int pz) {
    cases++;
    Walk W(P, F, MR);
    W.maxStates = 2;
    Syms sy;
    const Value *firstBank = nullptr;
    for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (decompose(L->getPointerOperand()).field(P) == "s_synth_channel_tag.bankNum" && !firstBank) firstBank = L;
    if (!firstBank) { R.broken.push_back("a program change does not read the bank"); return; }
    sy.rep = [&](const Value *v) -> const Value * {
      if (auto *L = dyn_cast<LoadInst>(v)) if (decompose(L->getPointerOperand()).field(P) == "s_synth_channel_tag.bankNum") return firstBank;
      return v;
    };
    CR br(APInt(16, lo), APInt(16, hi + 1)), prr = pz ? CR(APInt(8, 0)) : CR(APInt(8, 1), APInt(8, 128));
    Bits bank = Syms::leaf(sy.of(firstBank), 16, br).zext(64), prog = Syms::leaf(sy.of(F.getArg(3)), 8, prr).zext(64);
    unsigned top = lo >> 8;
    bool fixed = (lo >> 8) == (hi >> 8);
    int d = fixed && top == 0x78 ? 1 : fixed && top == 0x79 ? 0 : drum;
    auto K = [](uint64_t v) { return Bits::num(64, v); };
    uint64_t dr = d ? 0x1000000 : 0, def = d ? 0x7800 : 0x7900;
    std::vector<Search> E;
    if (coll) {
      E.push_back({'D', bank.shl(8) | prog | K(dr), 0});
      if (fixed && (top == 0x78 || top == 0x79)) E.push_back({'D', (bank & K(0xff)).shl(8) | prog | K(dr), 0});
      if (!(lo == hi && lo == def)) {
        E.push_back({'D', prog | K(dr | def << 8), 0});
        E.push_back({'D', prog | K(dr), 0});
      }
      if (d && !pz) E.push_back({'D', K(0x1000000 | 0x780000), 0}), E.push_back({'D', K(0x1000000), 0});
    }
    E.push_back({'B', bank, 1}), E.push_back({'P', bank.shl(8) | prog, 0});
    E.push_back({'B', K(def), 1}), E.push_back({'P', prog | K(def << 8), 0});
    E.push_back({'B', K(def), pz ? 1u : 0u}), E.push_back({'P', K(def << 8), 0});
    uint64_t flags = (drum ? 8 : 0) | (pz ? 0x12 : 1), after = (flags & ~8ull) | (d ? 8 : 0) | 4;
    auto what = [&] {
      char t[80];
      snprintf(t, sizeof t, "bank %x..%x%s, program %s%s", lo, hi, drum ? ", drums" : "", pz ? "0" : "1..127", coll ? ", sounds loaded" : "");
      return std::string(t);
    };
    auto again = [&](unsigned k) { for (unsigned m = 0; m < k; m++) if (E[m].same(E[k])) return true; return false; };
    std::vector<At> elems{At()};
    auto elem = [&](const At &a) { for (unsigned i = 1; i < elems.size(); i++) if (elems[i].kind == a.kind && elems[i].root == a.root && elems[i].ix == a.ix) return (int)i; elems.push_back(a); return (int)elems.size() - 1; };
    auto viol = [&](const std::string &k, const Instruction *I, const WState &S, const std::string &m) { R.add("program:" + k, loc(I), "a program change (" + what() + ") " + m, Walk::path(S)); };
    auto name = [](char k) { return k == 'D' ? "loaded program" : k == 'B' ? "bank" : "program"; };
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
      auto &t = S.ts;
      if (auto *L = dyn_cast<LoadInst>(I)) {
        std::string f = decompose(L->getPointerOperand()).field(P);
        if (f == "s_synth_channel_tag.bankNum") return W.refine(S, L, br);
        if (f == "s_synth_channel_tag.channelFlags") {
          auto r = W.get(S, L, 24); // written before?
          if (r.isSingleElement()) { S.fact.insert_or_assign(W.canon(S, L), r); return true; }
          return W.refine(S, L, r.isFullSet() ? CR(APInt(L->getType()->getIntegerBitWidth(), flags)) : r);
        }
        if (f == "s_synth_tag.pDLS") return W.refine(S, L, coll ? CR(APInt::getZero(64)).inverse() : CR(APInt::getZero(64)));
        if (f == "s_synth_tag.pEAS") return W.refine(S, L, CR(APInt::getZero(64)).inverse());
        if (f.find(".numDLSPrograms") != std::string::npos || f.find(".numPrograms") != std::string::npos || f.find(".numBanks") != std::string::npos)
          return W.refine(S, L, CR(APInt::getZero(L->getType()->getIntegerBitWidth())).inverse());
        return true;
      }
      if (isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<ICmpInst>(I) || isa<CastInst>(I)) { // keep what is fixed in this case
        if (!I->getType()->isIntegerTy()) return true;
        if (auto *Ic = dyn_cast<ICmpInst>(I); Ic && Ic->isEquality() && Ic->getOperand(0)->getType()->isPointerTy()) { // the end of a list that is not empty is not its start
          auto *a = W.canon(S, Ic->getOperand(0)), *b = W.canon(S, Ic->getOperand(1));
          for (int sw = 0; sw < 2 && a && b; sw++, std::swap(a, b)) {
            Addr A = decompose(b);
            auto *r = A.root ? W.canon(S, A.root) : nullptr;
            if (r != a || A.steps.size() != 1 || A.steps[0].k != Step::Index || !A.steps[0].var) continue;
            auto n = W.get(S, A.steps[0].var, 24);
            if (!n.contains(APInt::getZero(n.getBitWidth()))) S.fact.insert_or_assign(I, CR(APInt(1, Ic->getPredicate() == ICmpInst::ICMP_NE)));
          }
          return true;
        }
        auto r = W.get(S, I, 24);
        if (auto *Ic = dyn_cast<ICmpInst>(I); Ic && !r.isSingleElement() && Ic->isEquality())
          if (auto *c = dyn_cast<ConstantInt>(Ic->getOperand(1))) {
            Bits x = sy.eval(W, S, Ic->getOperand(0));
            for (unsigned i = 0; i < x.w(); i++)
              if ((x.b[i] == 0 || x.b[i] == 1) && x.b[i] != (long)c->getValue()[i]) { r = CR(APInt(1, Ic->getPredicate() == ICmpInst::ICMP_NE)); break; }
          }
        if (r.isSingleElement()) S.fact.insert_or_assign(I, r);
        return true;
      }
      auto *Sr = dyn_cast<StoreInst>(I);
      if (!Sr) return true;
      std::string sf = decompose(Sr->getPointerOperand()).field(P);
      if (sf == "s_synth_channel_tag.programNum") {
        obligations++;
        t[Num] = bare(W.canon(S, bare(Sr->getValueOperand()))) == F.getArg(3) || (pz && W.get(S, Sr->getValueOperand()) == CR(APInt(8, 0))) ? 1 : 2;
      } else if (sf == "s_synth_channel_tag.channelFlags") {
        obligations++;
        auto r = W.get(S, Sr->getValueOperand(), 24);
        t[Flags] = r.isSingleElement() ? (int)r.getSingleElement()->getZExtValue() : -1;
      }
      if (sf != "s_synth_channel_tag.regionIndex") return true;
      obligations++;
      t[Stored] = 1;
      auto *v = bare(W.canon(S, Sr->getValueOperand()));
      v = bare(W.canon(S, v));
      if (!t[Found]) {
        if (t[Bm]) { viol("empty", I, S, "takes an entry of a bank without looking whether it is there"); return true; }
        for (unsigned k = std::max(0, t[Pos] + 1); k < E.size(); k++) if (!again(k)) { viol("early", I, S, std::string("gives up before it looked for ") + name(E[k].kind) + " " + E[k].key.str()); return true; }
        auto *c = dyn_cast<ConstantInt>(v);
        auto r = W.get(S, Sr->getValueOperand());
        if (!(c && c->isZero()) && !(r.isSingleElement() && r.getSingleElement()->isZero())) viol("default", I, S, "does not choose the first region when there is no such program");
        return true;
      }
      auto *L = dyn_cast<LoadInst>(v);
      std::string f = L ? decompose(L->getPointerOperand()).field(P) : "";
      if (f != "s_program_tag.regionIndex" && f != "s_bank_tag.regionIndex") { viol("region", I, S, "does not choose the region of the program it found"); return true; }
      At a = at(W, S, L->getPointerOperand());
      auto &e = elems[t[Elem]];
      if (f == "s_bank_tag.regionIndex") {
        if (e.kind != 'B') viol("region", I, S, "does not choose the region of the program it found");
      } else if (a.kind != e.kind || a.root != e.root || a.ix != e.ix) viol("region", I, S, "chooses the region of another program than the one it found");
      return true;
    };
    W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
      auto &t = S.ts;
      auto *Br = dyn_cast<BranchInst>(from->getTerminator());
      if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) return;
      auto *Ic = dyn_cast<ICmpInst>(Br->getCondition());
      if (!Ic || !Ic->isEquality()) return;
      bool eq = (Br->getSuccessor(0) == to) == (Ic->getPredicate() == ICmpInst::ICMP_EQ);
      for (int sw = 0; sw < 2; sw++) {
        auto *L = dyn_cast<LoadInst>(bare(Ic->getOperand(sw)));
        if (!L) continue;
        std::string f = decompose(L->getPointerOperand()).field(P);
        auto *X = Ic->getOperand(1 - sw);
        if (f == "s_program_tag.locale" || f == "s_bank_tag.locale") {
          obligations++;
          At a = at(W, S, L->getPointerOperand());
          // what is compared, before this comparison told anything
          WState S0 = S;
          Bits x = sy.eval(W, S0, X);
          x = x.zext(64);
          if (t[Found]) { viol("more", Br, S, "keeps looking although the program was found"); return; }
          bool ok = t[Pos] >= 0 && E[t[Pos]].kind == a.kind && E[t[Pos]].key == x && !t[Bm];
          if (!ok) {
            unsigned k = t[Pos] + 1;
            for (; k < E.size(); k++) {
              if (E[k].kind == a.kind && E[k].key == x) { ok = true; break; }
              if (!again(k)) break;
            }
            if (ok) t[Pos] = k, t[Bm] = 0;
            else if (k < E.size()) viol("search", Br, S, std::string("looks for ") + name(a.kind) + " " + x.str() + " where it should look for " + name(E[k].kind) + " " + E[k].key.str());
            else viol("search", Br, S, std::string("looks for ") + name(a.kind) + " " + x.str() + " after all was searched");
          }
          if (!ok) { t[Found] = 1; t[Elem] = elem(a); return; }
          if (eq) {
            if (a.kind == 'B') t[Bm] = 1, t[Elem] = elem(a);
            else t[Found] = 1, t[Elem] = elem(a);
          }
          return;
        }
        if (f == "s_bank_tag.regionIndex") {
          auto *c = dyn_cast<ConstantInt>(X);
          if (!c || (c->getZExtValue() & 0xffff) != 0xffff) continue;
          obligations++;
          if (!t[Bm]) { viol("bank", Br, S, "looks into a bank that is not the one asked for"); return; }
          At a = at(W, S, L->getPointerOperand());
          auto &e = elems[t[Elem]];
          if (a.root != e.root || (e.ix && a.ix != e.ix)) viol("bank", Br, S, "looks into another bank than the one it found");
          const Value *ix = nullptr;
          bool inside = false;
          for (auto &s : decompose(L->getPointerOperand()).steps) { if (s.k == Step::Field) inside = true; else if (inside) ix = s.var; }
          Bits y = ix ? sy.eval(W, S, ix).zext(64) : K(0);
          Bits want = E[t[Pos]].prog ? prog : K(0);
          // the third search differs from the second in the entry only
          bool third = false;
          if (!(y == want))
            for (unsigned k = t[Pos] + 1; k < E.size(); k++) {
              if (E[k].kind == 'B' && E[k].key == E[t[Pos]].key && y == (E[k].prog ? prog : K(0))) { third = true; t[Pos] = k; break; }
              if (!again(k)) break;
            }
          if (!(y == want) && !third) viol("entry", Br, S, "looks up entry " + y.str() + " of a bank, not " + want.str());
          if (!eq) t[Found] = 1;
          return;
        }
      }
    };
    W.ret = [&](const ReturnInst *Rt, WState &S) {
      paths++;
      obligations++;
      if (!S.ts[Stored]) viol("none", Rt, S, "does not choose a region");
      if (S.ts[Num] != 1) viol("number", Rt, S, "does not keep the number of the program");
      if ((uint64_t)S.ts[Flags] != after) viol("flags", Rt, S, "leaves marks of the channel that do not say what it is now");
    };
    WState init;
    init.ts.assign(N, 0);
    init.ts[Pos] = -1;
    W.refine(init, F.getArg(3), prr);
    W.run(init);
    if (W.overflow) R.note("merged", what());
  }
};
void program(Ctx &C, Report &R) {
  Program_ X(C, R);
  X.run();
  R.stats["cases"] = X.cases;
  R.stats["obligations"] = X.obligations;
  R.stats["paths"] = X.paths;
}
NormOpts popts() {
  NormOpts o;
  o.into = {"VMProgramChange"};
  return o;
}
Reg reg("program", program, popts());
} // namespace
