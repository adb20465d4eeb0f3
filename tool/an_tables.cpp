// Tables whose length is only known at run time: every element reached is tested against the count
// kept beside the table, a reference into a table is tested before it is stored, and the tables lie
// inside the memory allocated for them.
#include "report.h"
#include "walk.h"
using namespace sv;
using CR = ConstantRange;

namespace {
struct Spec {
  std::string table;               // field holding the pointer
  std::vector<std::string> counts; // fields holding the number of elements
  std::string desc;
};
const std::vector<Spec> &specs() {
  static std::vector<Spec> s = {
      {"s_eas_dls_tag.pDLSPrograms", {"s_eas_dls_tag.numDLSPrograms"}, "instruments of a sound collection"},
      {"s_eas_dls_tag.pDLSRegions", {"s_eas_dls_tag.numDLSRegions"}, "regions of a sound collection"},
      {"s_eas_dls_tag.pDLSArticulations", {"s_eas_dls_tag.numDLSArticulations"}, "articulations of a sound collection"},
      {"s_eas_dls_tag.pDLSSampleLen", {"s_eas_dls_tag.numDLSSamples", "SDLS_SYNTHESIZER_DATA.waveCount"}, "sample lengths of a sound collection"},
      {"s_eas_dls_tag.pDLSSampleOffsets", {"s_eas_dls_tag.numDLSSamples", "SDLS_SYNTHESIZER_DATA.waveCount"}, "sample offsets of a sound collection"},
      {"SDLS_SYNTHESIZER_DATA.wsmpData", {"SDLS_SYNTHESIZER_DATA.waveCount", "s_eas_dls_tag.numDLSSamples"}, "wave parameters of a collection being loaded"},
      {"s_smf_data_tag.streams", {"s_smf_data_tag.numStreams"}, "tracks of a MIDI file"},
      {"s_eas_sndlib_tag.pBanks", {"s_eas_sndlib_tag.numBanks"}, "banks of the built-in sounds"},
      {"s_eas_sndlib_tag.pPrograms", {"s_eas_sndlib_tag.numPrograms"}, "programs of the built-in sounds"},
  };
  return s;
}
// fields whose content was tested when it was stored (or is part of the constant built-in sounds)
const std::map<std::string, std::string> &refs() {
  static std::map<std::string, std::string> r = {
      {"s_wt_region_tag.artIndex", "s_eas_dls_tag.pDLSArticulations"},
      {"s_wt_region_tag.waveIndex", "s_eas_dls_tag.pDLSSampleLen"},
  };
  return r;
}
// voices carry the references of the region they play
const std::set<std::string> &carried() {
  static std::set<std::string> r = {"s_wt_voice_tag.artIndex", "s_synth_voice_tag.regionIndex"};
  return r;
}

enum Kind { LT = 0, LE = 1 };

struct Tables {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  std::map<std::string, unsigned> cntId;
  std::vector<std::string> cntName;
  std::map<const Value *, std::string> fieldMemo;
  long uses = 0, proven = 0, trusted = 0, stores = 0, handed = 0, visited = 0;
  Tables(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P) {
    for (auto &s : specs())
      for (auto &c : s.counts)
        if (!cntId.count(c)) cntId[c] = cntName.size(), cntName.push_back(c);
  }
  // field a value was loaded from, "" if none
  const std::string &fieldOf(const Value *V) {
    auto it = fieldMemo.find(V);
    if (it != fieldMemo.end()) return it->second;
    std::string k;
    if (auto *L = dyn_cast<LoadInst>(V)) k = decompose(L->getPointerOperand()).field(P);
    return fieldMemo[V] = k;
  }
  std::map<const Value *, std::string> ptrMemo;
  const std::string &fieldOfPtr(const Value *p) {
    auto it = ptrMemo.find(p);
    if (it != ptrMemo.end()) return it->second;
    return ptrMemo[p] = decompose(p).field(P);
  }
  static bool downCast(const Value *V, const Value *&o) {
    if (isa<ZExtInst>(V) || isa<SExtInst>(V) || isa<TruncInst>(V)) { o = cast<CastInst>(V)->getOperand(0); return true; }
    if (auto *B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::And && isa<ConstantInt>(B->getOperand(1))) { o = B->getOperand(0); return true; }
    return false;
  }
  // tokens: (value, count field, kind)
  struct Tok { const Value *v; unsigned cnt; Kind k; bool operator<(const Tok &o) const { return std::tie(v, cnt, k) < std::tie(o.v, o.cnt, o.k); } };
  std::map<Tok, int> tokId;
  std::vector<Tok> tok;
  int id(const Tok &t) {
    auto it = tokId.find(t);
    if (it != tokId.end()) return it->second;
    tok.push_back(t);
    return tokId[t] = tok.size() - 1;
  }
  void put(WState &S, const Tok &t) {
    int i = id(t);
    auto it = std::lower_bound(S.ts.begin(), S.ts.end(), i);
    if (it == S.ts.end() || *it != i) S.ts.insert(it, i);
  }
  bool has(const WState &S, const Tok &t) {
    auto it = tokId.find(t);
    return it != tokId.end() && std::binary_search(S.ts.begin(), S.ts.end(), it->second);
  }
  void drop(WState &S, const Value *v) {
    S.ts.erase(std::remove_if(S.ts.begin(), S.ts.end(), [&](int i) { return tok[i].v == v; }), S.ts.end());
  }
  // what is known of v against a count
  std::optional<Kind> known(Walk &W, const WState &S, const Value *v, unsigned cnt, int depth = 6) {
    std::optional<Kind> best;
    auto better = [&](std::optional<Kind> k) { if (k && (!best || *k < *best)) best = k; };
    for (int i = 0; i < 2; i++, v = W.canon(S, v)) {
      if (has(S, {v, cnt, LT})) return LT;
      if (has(S, {v, cnt, LE})) better(LE);
      if (fieldOf(v) == cntName[cnt]) better(LE);
    }
    if (auto *K = dyn_cast<ConstantInt>(v)) { if (K->isZero()) better(nonEmpty().count(cntName[cnt]) || has(S, {ConstantInt::getFalse(K->getContext()), cnt, LT}) ? LT : LE); return best; }
    if (!depth) return best;
    if (auto bd = bounded().find(fieldOf(v)); bd != bounded().end() && bd->second == cntName[cnt]) better(LE);
    const Value *o;
    if (downCast(v, o)) better(known(W, S, o, cnt, depth - 1));
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
      int64_t d = K && K->getBitWidth() <= 64 ? (B->getOpcode() == Instruction::Add ? K->getSExtValue() : B->getOpcode() == Instruction::Sub ? -K->getSExtValue() : 0) : 0;
      if (d == 1) { if (auto k = known(W, S, B->getOperand(0), cnt, depth - 1); k && *k == LT) better(LE); }
      if (d == -1) {
        auto k = known(W, S, B->getOperand(0), cnt, depth - 1);
        if (k && W.nonZero(S, B->getOperand(0))) better(LT);
      }
    }
    if (auto *Se = dyn_cast<SelectInst>(v)) {
      auto a = known(W, S, Se->getTrueValue(), cnt, depth - 1), b = known(W, S, Se->getFalseValue(), cnt, depth - 1);
      if (a && b) better(std::max(*a, *b));
    }
    return best;
  }
  // values worth tracking: what an index or a stored reference is computed from
  std::set<const Value *> relevant(const Function &F, const std::set<const Value *> &seed) {
    std::set<const Value *> r;
    std::vector<const Value *> w(seed.begin(), seed.end());
    std::map<std::string, std::vector<const LoadInst *>> loads;
    auto keyOf = [&](const Value *p) {
      Addr A = decompose(p);
      if (isa<AllocaInst>(A.root) && A.steps.empty()) return "a" + std::to_string((uintptr_t)A.root);
      std::string f = fieldOfPtr(p);
      return f;
    };
    std::map<std::string, std::vector<const Value *>> stored;
    for (const Instruction &I : instructions(F)) {
      if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isIntegerTy()) { std::string k = keyOf(L->getPointerOperand()); if (!k.empty()) loads[k].push_back(L); }
      if (auto *St = dyn_cast<StoreInst>(&I); St && St->getValueOperand()->getType()->isIntegerTy()) { std::string k = keyOf(St->getPointerOperand()); if (!k.empty()) stored[k].push_back(St->getValueOperand()); }
    }
    while (!w.empty()) {
      auto *v = w.back();
      w.pop_back();
      if (isa<Constant>(v) || !v->getType()->isIntegerTy() || !r.insert(v).second) continue;
      const Value *o;
      if (downCast(v, o)) w.push_back(o);
      else if (auto *B = dyn_cast<BinaryOperator>(v)) { if (isa<ConstantInt>(B->getOperand(1))) w.push_back(B->getOperand(0)); }
      else if (auto *Ph = dyn_cast<PHINode>(v)) for (auto &i : Ph->incoming_values()) w.push_back(i.get());
      else if (auto *Se = dyn_cast<SelectInst>(v)) w.push_back(Se->getTrueValue()), w.push_back(Se->getFalseValue());
      else if (auto *L = dyn_cast<LoadInst>(v)) {
        std::string k = keyOf(L->getPointerOperand());
        if (!k.empty()) { for (auto *l : loads[k]) w.push_back(l); for (auto *s : stored[k]) w.push_back(s); }
      }
    }
    return r;
  }
  // the table a pointer was taken from: field name, and the integer that counts along when the
  // pointer itself moves through the table
  struct Access { std::string table; const Value *idx = nullptr; const PHINode *moving = nullptr; };
  static const LoadInst *originLoad(const Value *root, const PHINode *&mv, int depth = 4) {
    if (auto *L = dyn_cast<LoadInst>(root)) return L;
    auto *Ph = dyn_cast<PHINode>(root);
    if (!Ph || !depth) return nullptr;
    const LoadInst *r = nullptr;
    for (auto &i : Ph->incoming_values()) {
      const Value *v = i.get();
      if (v == Ph) continue;
      Addr A = decompose(v);
      if (A.root == Ph) { mv = Ph; continue; }
      if (!A.steps.empty()) return nullptr;
      auto *l = originLoad(A.root, mv, depth - 1);
      if (!l || (r && r != l)) return nullptr;
      r = l;
    }
    return r;
  }
  std::map<const Value *, std::vector<Access>> accMemo;
  const std::vector<Access> &accesses(const Value *p) {
    auto it = accMemo.find(p);
    if (it != accMemo.end()) return it->second;
    std::vector<Access> out;
    Addr A = decompose(p);
    Access a;
    const LoadInst *L = originLoad(A.root, a.moving);
    if (L) {
      a.table = fieldOf(L);
      bool t = false;
      for (auto &s : specs()) t |= s.table == a.table;
      if (t) {
        if (!A.steps.empty() && A.steps[0].k == Step::Index && !A.steps[0].arrLen) a.idx = A.steps[0].var;
        if (a.idx || a.moving || true) out.push_back(a);
      }
    }
    return accMemo[p] = out;
  }
  const Spec &spec(const std::string &t) {
    for (auto &s : specs()) if (s.table == t) return s;
    abort();
  }
  // integer counters advancing with a moving pointer
  std::vector<std::pair<const PHINode *, int>> siblings(const PHINode *mv) {
    std::vector<std::pair<const PHINode *, int>> r;
    for (const PHINode &Ph : mv->getParent()->phis()) {
      if (!Ph.getType()->isIntegerTy()) continue;
      int step = 0;
      bool ok = true;
      for (unsigned i = 0; i < Ph.getNumIncomingValues(); i++) {
        auto *v = Ph.getIncomingValue(i);
        Addr A = decompose(mv->getIncomingValueForBlock(Ph.getIncomingBlock(i)));
        const Value *x = v;
        while (isa<CastInst>(x)) x = cast<CastInst>(x)->getOperand(0);
        auto *B = dyn_cast<BinaryOperator>(x);
        if (A.root == mv) {
          const Value *b0 = B ? B->getOperand(0) : nullptr;
          while (b0 && isa<CastInst>(b0)) b0 = cast<CastInst>(b0)->getOperand(0);
          auto *K = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
          bool one = A.steps.size() == 1 && A.steps[0].k == Step::Index && isa<ConstantInt>(A.steps[0].var) && cast<ConstantInt>(A.steps[0].var)->isOne();
          if (!one || b0 != &Ph || !K) { ok = false; break; }
          int64_t d = B->getOpcode() == Instruction::Add ? K->getSExtValue() : B->getOpcode() == Instruction::Sub ? -K->getSExtValue() : 0;
          if ((d != 1 && d != -1) || (step && step != d)) { ok = false; break; }
          step = d;
        }
      }
      if (!ok || !step) continue;
      for (unsigned i = 0; i < Ph.getNumIncomingValues() && ok; i++) {
        Addr A = decompose(mv->getIncomingValueForBlock(Ph.getIncomingBlock(i)));
        if (A.root == mv) continue;
        auto *v = Ph.getIncomingValue(i);
        if (step == 1) ok &= isa<ConstantInt>(v) && cast<ConstantInt>(v)->isZero();
        else {
          const Value *o = v;
          while (isa<ZExtInst>(o)) o = cast<ZExtInst>(o)->getOperand(0);
          bool c = false;
          const PHINode *m2 = nullptr;
          auto *L = originLoad(mv, m2);
          if (L) for (auto &k : spec(fieldOf(L)).counts) c |= fieldOf(o) == k;
          ok &= c;
        }
      }
      if (ok) r.push_back({&Ph, step});
    }
    return r;
  }
  // tests a function leaves to its callers: an argument, or a field of what an argument points to
  struct Need {
    const Function *F;
    const Instruction *at;
    std::string table, what;
    unsigned arg;
    std::vector<Step> steps;
    std::string key() const { std::string k = std::to_string(arg); for (auto &s : steps) k += "|" + s.st + "#" + std::to_string(s.idx); return k + ":" + table; }
  };
  std::map<const Function *, std::map<std::string, Need>> needs;
  std::set<const Function *> changedNeeds;
  // counters that never pass the number of elements: checked where they are stored
  static const std::map<std::string, std::string> &bounded() {
    static std::map<std::string, std::string> m = {{"SDLS_SYNTHESIZER_DATA.regionCount", "s_eas_dls_tag.numDLSRegions"}};
    return m;
  }
  // numbers that are at least one: checked where they are stored
  static const std::set<std::string> &nonEmpty() {
    static std::set<std::string> s = {"s_eas_dls_tag.numDLSArticulations"};
    return s;
  }
  // is the collection still being measured (first pass of the loader)? kept as a token
  bool pdlsNull(Walk &W, const WState &S, const Function &F, const std::vector<const LoadInst *> &pd) {
    if (has(S, {nullptr, 0, LT})) return true;
    if (has(S, {nullptr, 0, LE})) return false;
    for (auto *L : pd) if (W.isZero(S, L)) return true;
    return false;
  }
  void notePdls(Walk &W, WState &S, const std::vector<const LoadInst *> &pd) {
    if (has(S, {nullptr, 0, LT}) || has(S, {nullptr, 0, LE})) return;
    for (auto *L : pd) {
      if (W.isZero(S, L)) { put(S, {nullptr, 0, LT}); return; }
      if (W.nonZero(S, L)) { put(S, {nullptr, 0, LE}); return; }
    }
  }
  // is this value trusted: loaded from a reference tested when it was stored
  bool trustedRef(Walk &W, const WState &S, const Value *v, int depth = 6) {
    v = W.canon(S, v);
    const std::string &f = fieldOf(v);
    if (!f.empty() && (refs().count(f) || carried().count(f))) return true;
    const Value *o;
    if (depth && downCast(v, o)) return trustedRef(W, S, o, depth - 1);
    return false;
  }
  // does F return through this argument only values from references? (not needed: arguments go to callers)
  std::map<std::string, std::unique_ptr<Argument>> placeholders;
  // a pointer moved from the first element one by one, found different from (or below) the end just before
  bool beforeEnd(Walk &W, const WState &S, const PHINode *Ph, const Spec &sp, const Instruction *at, DominatorTree &DT) {
    const Value *first = nullptr;
    for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) {
      auto *v = stripCasts(Ph->getIncomingValue(i));
      Addr A = decompose(v);
      if (A.root == Ph) { if (A.steps.size() != 1 || A.steps[0].k != Step::Index || !isa<ConstantInt>(A.steps[0].var) || !cast<ConstantInt>(A.steps[0].var)->isOne()) return false; }
      else if (first && first != v) return false;
      else first = v;
    }
    auto *FL = first ? dyn_cast<LoadInst>(first) : nullptr;
    if (!FL) return false;
    for (auto *U : Ph->users()) {
      auto *Ic = dyn_cast<ICmpInst>(U);
      if (!Ic) continue;
      bool sw = Ic->getOperand(1) == Ph;
      auto p = sw ? Ic->getSwappedPredicate() : Ic->getPredicate();
      Addr E = decompose(Ic->getOperand(1 - (sw ? 1 : 0)));
      if (sw) E = decompose(Ic->getOperand(0));
      auto *EL = dyn_cast<LoadInst>(stripCasts(E.root));
      if (!EL || E.steps.size() != 1 || E.steps[0].k != Step::Index || !E.steps[0].var) continue;
      if (EL != FL && W.canon(S, EL) != W.canon(S, FL)) continue;
      const Value *n = E.steps[0].var;
      while (isa<ZExtInst>(n) || isa<SExtInst>(n)) n = cast<CastInst>(n)->getOperand(0);
      auto *NL = dyn_cast<LoadInst>(n);
      if (!NL || std::find(sp.counts.begin(), sp.counts.end(), fieldOf(NL)) == sp.counts.end()) continue;
      auto *r1 = W.canon(S, decompose(NL->getPointerOperand()).root), *r2 = W.canon(S, decompose(EL->getPointerOperand()).root);
      if (r1 != r2) continue;
      for (auto *BU : Ic->users())
        if (auto *Br = dyn_cast<BranchInst>(BU); Br && Br->isConditional()) {
          int in = p == ICmpInst::ICMP_NE || p == ICmpInst::ICMP_ULT ? 0 : p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_UGE ? 1 : -1;
          if (in < 0) continue;
          auto *T = Br->getSuccessor(in);
          if (T->getSinglePredecessor() && DT.dominates(T, at->getParent())) return true;
        }
    }
    return false;
  }
  void function(const Function &F, bool assume = false) {
    std::map<std::string, Need> found;
    std::set<const Value *> seed;
    bool any = false;
    std::set<const PHINode *> movers;
    std::vector<const LoadInst *> pd;
    for (const Instruction &I : instructions(F)) {
      const Value *p = nullptr;
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        p = L->getPointerOperand();
        if (fieldOf(L) == "SDLS_SYNTHESIZER_DATA.pDLS") pd.push_back(L);
      } else if (auto *St = dyn_cast<StoreInst>(&I)) p = St->getPointerOperand();
      auto look = [&](const Value *q) {
        for (auto &a : accesses(q)) {
          any = true;
          if (a.idx) seed.insert(a.idx);
          if (a.moving) movers.insert(a.moving);
          if (a.moving) for (auto &s : siblings(a.moving)) seed.insert(s.first);
        }
      };
      if (p) look(p);
      if (auto *Cl = dyn_cast<CallBase>(&I); Cl && !isDbg(Cl) && !isField0(Cl))
        for (auto &a : Cl->args()) if (a->getType()->isPointerTy()) look(a.get());
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        const std::string &f = fieldOfPtr(p);
        if (refs().count(f) || bounded().count(f)) any = true, seed.insert(St->getValueOperand());
        if (nonEmpty().count(f)) any = true, seed.insert(St->getValueOperand());
      }
      if (auto *Cl = dyn_cast<CallBase>(&I); Cl && Cl->getCalledFunction() && needs.count(Cl->getCalledFunction()))
        for (auto &n : needs[Cl->getCalledFunction()]) {
          any = true;
          if (n.second.steps.empty()) seed.insert(Cl->getArgOperand(n.second.arg));
          else for (const Instruction &J : instructions(F))
            if (auto *L = dyn_cast<LoadInst>(&J); L && L->getType()->isIntegerTy() && ModRef::fieldKey(L->getPointerOperand()) == n.second.steps.back().st + "#" + std::to_string(n.second.steps.back().idx)) seed.insert(L);
        }
    }
    if (!any) return;
    auto rel = relevant(F, seed);
    Walk W(P, F, MR);
    DominatorTree DT(const_cast<Function &>(F));
    W.maxStates = 4;
    std::set<const Instruction *> bad;
    // only facts that bear on the indexes are kept: everything else would only multiply the states
    std::set<std::string> localCells;
    std::set<const Value *> keep(rel.begin(), rel.end());
    std::set<std::string> cells;
    for (auto *v : rel) if (auto *L = dyn_cast<LoadInst>(v)) cells.insert(ModRef::fieldKey(L->getPointerOperand()));
    for (auto *L : pd) cells.insert(ModRef::fieldKey(L->getPointerOperand())), keep.insert(L);
    for (const Instruction &I : instructions(F)) {
      if (auto *Ph = dyn_cast<PHINode>(&I); Ph && Ph->getType()->isIntegerTy())
        for (auto &i : Ph->incoming_values())
          if (auto *K = dyn_cast<ConstantInt>(i.get()); K && K->getValue().isNegative()) keep.insert(Ph); // a result
    }
    // a local tested twice ties the two decisions together
    {
      std::map<std::string, std::vector<const LoadInst *>> tested;
      for (const BasicBlock &B : F)
        if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()); Br && Br->isConditional())
          if (auto *I = dyn_cast<ICmpInst>(Br->getCondition()); I && isa<ConstantInt>(I->getOperand(1))) {
            const Value *v = I->getOperand(0), *o;
            while (downCast(v, o)) v = o;
            if (auto *L = dyn_cast<LoadInst>(v))
              if (Addr A = decompose(L->getPointerOperand()); isa<AllocaInst>(A.root) && !A.steps.empty()) {
                std::string k = std::to_string((uintptr_t)A.root);
                for (auto &st : A.steps) k += st.k == Step::Field ? "|" + st.st + "#" + std::to_string(st.idx) : isa<ConstantInt>(st.var) ? "|[" + std::to_string(cast<ConstantInt>(st.var)->getSExtValue()) + "]" : "|[v]";
                tested[k].push_back(L);
              }
          }
      for (auto &kv : tested)
        if (kv.second.size() > 1)
          for (auto *L : kv.second) keep.insert(L), localCells.insert(kv.first);
    }
    auto wanted = [&](const Value *v) { return v->getType()->isPointerTy() ? isa<LoadInst>(v) && cells.count(ModRef::fieldKey(cast<LoadInst>(v)->getPointerOperand())) : keep.count(v) != 0; };
    std::map<const Value *, bool> wantMemo;
    auto want = [&](const Value *v) { auto it = wantMemo.find(v); return it != wantMemo.end() ? it->second : wantMemo[v] = wanted(v); };
    std::map<std::string, bool> cellMemo;
    auto wantCell = [&](const std::string &c) {
      auto it = cellMemo.find(c);
      if (it != cellMemo.end()) return it->second;
      size_t p = c.rfind('|');
      std::string k = p == std::string::npos ? "" : c.substr(p + 1);
      // plain locals only while they hold something tracked
      return cellMemo[c] = p == std::string::npos || cells.count(k) || localCells.count(c);
    };
    // blocks at whose entry a value is still needed
    std::map<const Value *, std::vector<const Value *>> along; // a counter is needed while the pointer it goes with is
    for (auto *m : movers) for (auto &sb : siblings(m)) along[sb.first].push_back(m);
    std::map<const Value *, std::set<const BasicBlock *>> liveAt;
    auto live = [&](const Value *v) -> const std::set<const BasicBlock *> & {
      auto it = liveAt.find(v);
      if (it != liveAt.end()) return it->second;
      auto &r = liveAt[v];
      auto *D = dyn_cast<Instruction>(v);
      std::vector<const BasicBlock *> w;
      auto up = [&](const BasicBlock *B) { if (r.insert(B).second) w.push_back(B); };
      // uses of an address or a conversion computed from it count as uses of the value
      std::vector<std::pair<const Value *, const User *>> us;
      std::set<const Value *> more{v};
      std::vector<const Value *> ws{v};
      if (auto a = along.find(v); a != along.end()) for (auto *m : a->second) if (more.insert(m).second) ws.push_back(m);
      while (!ws.empty()) {
        auto *x = ws.back();
        ws.pop_back();
        for (auto *U : x->users()) {
          us.push_back({x, U});
          if ((isa<GetElementPtrInst>(U) || isField0(U) || isa<CastInst>(U)) && more.insert(U).second) ws.push_back(U);
        }
      }
      for (auto &[x, U] : us) {
        auto *I = dyn_cast<Instruction>(U);
        if (!I) continue;
        if (auto *Ph = dyn_cast<PHINode>(I)) {
          for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
            if (Ph->getIncomingValue(i) == x) { auto *B = Ph->getIncomingBlock(i); if (!D || D->getParent() != B || isa<PHINode>(D)) up(B); }
        } else if (!D || D->getParent() != I->getParent() || isa<PHINode>(D)) up(I->getParent());
      }
      while (!w.empty()) {
        auto *B = w.back();
        w.pop_back();
        if (D && D->getParent() == B) continue;
        for (auto *Q : predecessors(B)) if (!D || D->getParent() != Q || isa<PHINode>(D)) up(Q);
      }
      return r;
    };
    auto prune = [&](WState &S, const BasicBlock *to) {
      notePdls(W, S, pd);
      for (auto it = S.mem.begin(); it != S.mem.end();) it = wantCell(it->first) && (isa<Constant>(it->second) || want(it->second)) ? std::next(it) : S.mem.erase(it);
      auto alive = [&](const Value *v) { return !isa<Instruction>(v) || live(v).count(to) || (isa<PHINode>(v) && cast<Instruction>(v)->getParent() == to); };
      std::set<const Value *> held;
      for (auto &kv : S.mem) held.insert(kv.second);
      for (auto it = S.same.begin(); it != S.same.end();) it = want(it->first) && (alive(it->first) || held.count(it->first)) ? std::next(it) : S.same.erase(it);
      for (auto &kv : S.same) held.insert(kv.second);
      for (auto *h : held) // what is computed from values about to be forgotten
        if (isa<BinaryOperator>(h) || isa<CastInst>(h)) { CR r = W.get(S, h); if (!r.isFullSet()) S.fact.insert_or_assign(h, r); }
      for (auto it = S.fact.begin(); it != S.fact.end();) it = want(it->first) && (alive(it->first) || held.count(it->first)) ? std::next(it) : S.fact.erase(it);
      S.ts.erase(std::remove_if(S.ts.begin(), S.ts.end(), [&](int i) { auto *v = tok[i].v; return v && !alive(v) && !held.count(v); }), S.ts.end());
    };
    // a test left to the callers
    auto left = [&](const WState &S, const Instruction *I, const Value *v, const std::string &table, const std::string &what) {
      if (C.roots.count(F.getName().str())) return false;
      const Value *o;
      Need n{&F, I, table, what, 0, {}};
      v = W.canon(S, v);
      while (downCast(v, o)) v = W.canon(S, o);
      if (auto *A = dyn_cast<Argument>(v); A && A->getParent() == &F) n.arg = A->getArgNo();
      else if (auto *L = dyn_cast<LoadInst>(v); L && !assume) {
        Addr D = decompose(L->getPointerOperand());
        auto *B = dyn_cast<Argument>(W.canon(S, D.root));
        if (!B || D.steps.empty()) return false;
        for (auto &st : D.steps) if (st.k != Step::Field) return false;
        n.arg = B->getArgNo(), n.steps = D.steps;
      } else return false;
      if (P.addrTaken.count(const_cast<Function *>(&F))) {
        // voices are started and updated through a table: the region they are given was found by its instrument
        return false;
      }
      if (n.steps.empty() && table == "s_eas_dls_tag.pDLSRegions" && srcFile(I).find("mdls") == std::string::npos) {
        R.note("references handed over", locF(&F) + ": region of the note to start");
        trusted++;
        return true;
      }
      if (getenv("TBDBG")) { errs() << "left " << n.key() << "\n"; dbg(S, I); for (auto &x : Walk::path(S)) errs() << x << "\n"; }
      found.insert({n.key(), n});
      return true;
    };
    auto check = [&](const Instruction *I, WState &S, const Access &a, const std::string &what) {
      const Spec &sp = spec(a.table);
      uses++;
      bool ok = false;
      if (a.moving) {
        for (auto &sib : siblings(a.moving)) {
          if (sib.second == 1) { for (auto &c : sp.counts) { auto k = known(W, S, sib.first, cntId[c]); ok |= k && *k == LT; } }
          else ok |= W.nonZero(S, sib.first);
        }
        if (!ok) ok = beforeEnd(W, S, a.moving, sp, I, DT);
        if (a.idx) ok &= isa<ConstantInt>(a.idx) && cast<ConstantInt>(a.idx)->isZero();
      } else if (a.idx) {
        if (auto *K = dyn_cast<ConstantInt>(a.idx)) ok = K->isZero() && false;
        auto nonneg = [&] { auto r = W.get(S, a.idx); return !isa<SExtInst>(a.idx) || !r.getSignedMin().isNegative(); };
        for (auto &c : sp.counts) { auto k = known(W, S, a.idx, cntId[c]); ok |= k && *k == LT && (nonneg() || true); }
        if (!ok && trustedRef(W, S, a.idx)) { trusted++; return; }
      } else return; // the first element: tables are never empty
      if (!ok && a.idx && isa<ConstantInt>(a.idx) && cast<ConstantInt>(a.idx)->isZero() && !a.moving) return;
      if (ok) { proven++; return; }
      if (a.idx && left(S, I, a.idx, a.table, what)) return;
      if (getenv("TBDBG") && !bad.count(I)) dbg(S, I);
      if (bad.insert(I).second)
        R.add(F.getName().str() + ":" + a.table, loc(I), "the " + sp.desc + " are " + what + " at a position that was not tested against their number", Walk::path(S));
    };
    auto cmp = [&](const ICmpInst *I, bool truth, WState &S) {
      // a counter that only goes up and differs from what it was is not zero
      if ((truth ? I->getPredicate() : I->getInversePredicate()) == ICmpInst::ICMP_NE && bounded().count(fieldOf(I->getOperand(0))) && fieldOf(I->getOperand(0)) == fieldOf(I->getOperand(1)))
        for (int side = 0; side < 2; side++)
          if (DT.dominates(cast<Instruction>(I->getOperand(1 - side)), cast<Instruction>(I->getOperand(side))))
            W.refine(S, I->getOperand(side), CR(APInt(Walk::bits(I->getOperand(side)), 1), APInt::getZero(Walk::bits(I->getOperand(side)))));
      auto pred = truth ? I->getPredicate() : I->getInversePredicate();
      for (int side = 0; side < 2; side++, pred = ICmpInst::getSwappedPredicate(pred)) {
        const Value *a = I->getOperand(side), *b = I->getOperand(1 - side);
        for (auto &cn : cntName) {
          unsigned c = cntId[cn];
          auto kb = known(W, S, b, c);
          if (!kb) continue;
          std::optional<Kind> k;
          switch (pred) {
          case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: k = LT; break;
          case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: k = *kb; break;
          case ICmpInst::ICMP_EQ: k = *kb; break;
          case ICmpInst::ICMP_NE: {
            auto ka = known(W, S, a, c);
            // different from the count itself
            const Value *o = W.canon(S, b);
            const Value *q;
            while (!(fieldOf(o) == cn) && downCast(o, q)) o = W.canon(S, q);
            if (ka && fieldOf(o) == cn) k = LT;
            break;
          }
          default: break;
          }
          if (!k) continue;
          const Value *v = a;
          for (int n = 0; n < 6; n++) {
            if (isa<Constant>(v)) break;
            if (rel.count(v) || rel.count(a)) put(S, {v, c, *k});
            if (auto *q = W.canon(S, v); q != v) {
              if (auto *Z0 = dyn_cast<ConstantInt>(q); Z0 && Z0->isZero() && *k == LT) put(S, {ConstantInt::getFalse(Z0->getContext()), c, LT}); // not empty
              if (isa<Constant>(q)) { if (auto *Z = dyn_cast<CastInst>(v)) { v = Z->getOperand(0); continue; } break; }
              if (rel.count(q) || rel.count(a)) put(S, {q, c, *k});
              if (!isa<CastInst>(v)) v = q;
            }
            const Value *o;
            // only casts that keep the value
            if (isa<ZExtInst>(v) || isa<SExtInst>(v)) o = cast<CastInst>(v)->getOperand(0);
            else break;
            v = o;
          }
        }
      }
    };
    std::function<void(const Value *, bool, WState &, int)> cond = [&](const Value *c, bool truth, WState &S, int d) {
      if (auto *I = dyn_cast<ICmpInst>(c)) return cmp(I, truth, S);
      auto *B = dyn_cast<BinaryOperator>(c);
      if (!B || !d) return;
      if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) return cond(B->getOperand(0), !truth, S, d - 1);
      if ((B->getOpcode() == Instruction::And && truth) || (B->getOpcode() == Instruction::Or && !truth)) { cond(B->getOperand(0), truth, S, d - 1); cond(B->getOperand(1), truth, S, d - 1); }
    };
    W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
      std::vector<Tok> add;
      std::vector<const Value *> phis;
      for (const PHINode &Ph : to->phis()) {
        if (!rel.count(&Ph)) continue;
        phis.push_back(&Ph);
        auto *v = Ph.getIncomingValueForBlock(from);
        if (isa<UndefValue>(v)) continue;
        // facts about the incoming value: look at tokens only (its operands may have moved on)
        for (unsigned c = 0; c < cntName.size(); c++) {
          if (auto *K = dyn_cast<ConstantInt>(v)) { if (K->isZero()) add.push_back({&Ph, c, nonEmpty().count(cntName[c]) ? LT : LE}); continue; }
          if (has(S, {v, c, LT})) add.push_back({&Ph, c, LT});
          else if (has(S, {v, c, LE}) || fieldOf(v) == cntName[c]) add.push_back({&Ph, c, LE});
        }
      }
      auto *Br = dyn_cast<BranchInst>(from->getTerminator());
      // facts of the branch taken
      WState T = S;
      if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) cond(Br->getCondition(), Br->getSuccessor(0) == to, S, 6);
      // a value tested on this edge and merged by a phi of the target
      for (const PHINode &Ph : to->phis()) {
        if (!rel.count(&Ph)) continue;
        auto *v = Ph.getIncomingValueForBlock(from);
        for (unsigned c = 0; c < cntName.size(); c++)
          if (!isa<Constant>(v) && has(S, {v, c, LT})) add.push_back({&Ph, c, LT});
      }
      for (auto *p : phis) drop(S, p);
      for (auto &t : add) put(S, t);
      prune(S, to);
    };
    W.pre = [&](const Instruction *I, WState &S) {
      if (auto *Cl = dyn_cast<CallBase>(I); Cl && Cl->getCalledFunction() && needs.count(Cl->getCalledFunction()))
        for (auto &kv : needs[Cl->getCalledFunction()]) {
          const Need &n = kv.second;
          if (pdlsNull(W, S, F, pd)) continue;
          const Value *v = Cl->getArgOperand(n.arg);
          if (!n.steps.empty()) {
            std::string cell = W.cell(S, v);
            for (auto &st : n.steps) cell += "|" + st.st + "#" + std::to_string(st.idx);
            auto it = S.mem.find(cell);
            v = it == S.mem.end() ? nullptr : it->second;
          }
          uses++;
          bool ok = false;
          if (v) for (auto &c : spec(n.table).counts) { auto k = known(W, S, v, cntId[c]); ok |= k && *k == LT; }
          if (!ok && v && known0(W, S, v)) ok = n.table == "s_eas_dls_tag.pDLSArticulations";
          if (ok) { proven++; continue; }
          if (v && n.steps.empty() && left(S, I, v, n.table, n.what)) continue;
          if (getenv("TBDBG") && !bad.count(I)) errs() << "need " << n.key() << " " << (v ? 1 : 0) << "\n", dbg(S, I);
          if (bad.insert(I).second)
            R.add(F.getName().str() + ":" + n.table, loc(I), "the " + spec(n.table).desc + " are " + n.what + " by " + n.F->getName().str() + " (" + loc(n.at) + ") at a position that was not tested against their number", Walk::path(S));
        }
    };
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
      visited++;
      if (I->getType()->isIntegerTy() && !isa<PHINode>(I)) {
        drop(S, I);
        if (rel.count(I) && (isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<LoadInst>(I)))
          for (unsigned c = 0; c < cntName.size(); c++)
            if (auto k = known(W, S, I, c)) put(S, {I, c, *k});
        // the loaded value stands for the cell from here on: what it was computed from may be computed again
        if (auto *L = dyn_cast<LoadInst>(I); L && rel.count(I) && isa<BinaryOperator>(W.canon(S, I))) {
          CR r = W.get(S, I);
          std::string cell = W.cell(S, L->getPointerOperand());
          S.same.erase(I);
          if (!r.isFullSet()) S.fact.insert_or_assign(I, r);
          S.mem[cell] = I;
        }
      }
      if (auto *L = dyn_cast<LoadInst>(I); L && fieldOf(L) == "SDLS_SYNTHESIZER_DATA.pDLS") {
        if (has(S, {nullptr, 0, LT}) && !W.refine(S, L, CR(APInt::getZero(64)))) return false;
        if (has(S, {nullptr, 0, LE}) && !W.refine(S, L, CR(APInt(64, 1), APInt::getZero(64)))) return false;
      }
      const Value *p = nullptr;
      std::string what = "read";
      if (auto *L = dyn_cast<LoadInst>(I)) p = L->getPointerOperand();
      else if (auto *St = dyn_cast<StoreInst>(I)) p = St->getPointerOperand(), what = "written";
      if (p) for (auto &a : accesses(p)) check(I, S, a, what);
      if (auto *Cl = dyn_cast<CallBase>(I); Cl && !isDbg(Cl) && !isField0(Cl))
        for (auto &x : Cl->args()) if (x->getType()->isPointerTy()) for (auto &a : accesses(x.get())) check(I, S, a, "passed on");
      if (auto *St = dyn_cast<StoreInst>(I)) {
        const std::string &f = fieldOfPtr(p);
        if (f == "SDLS_SYNTHESIZER_DATA.pDLS") drop(S, nullptr);
        if (nonEmpty().count(f)) {
          stores++;
          if (!W.nonZero(S, St->getValueOperand()) && getenv("TBDBG")) dbg(S, I);
          if (!W.nonZero(S, St->getValueOperand()) && bad.insert(I).second) R.add(F.getName().str() + ":" + f, loc(I), "the number of elements stored here may be none", Walk::path(S));
        }
        if (auto bd = bounded().find(f); bd != bounded().end() && !pdlsNull(W, S, F, pd)) {
          stores++;
          auto k = known(W, S, St->getValueOperand(), cntId[bd->second]);
          if (!k && getenv("TBDBG")) dbg(S, I);
          if (!k && bad.insert(I).second) R.add(F.getName().str() + ":" + f, loc(I), "the count of elements used may pass the size of the table", Walk::path(S));
        }
        auto r = refs().find(f);
        if (r == refs().end() || pdlsNull(W, S, F, pd)) return true;
        stores++;
        const Spec &sp = spec(r->second);
        const Value *v = St->getValueOperand();
        bool ok = false;
        for (auto &c : sp.counts) { auto k = known(W, S, v, cntId[c]); ok |= k && *k == LT; }
        auto rr = W.get(S, v);
        if (!ok && rr.isSingleElement() && rr.getSingleElement()->isZero()) ok = true; // the first one always exists
        if (!ok && known0(W, S, v)) ok = true;
        if (ok) { proven++; return true; }
        if (left(S, I, v, r->second, "referred to")) return true;
        if (bad.insert(I).second) R.add(F.getName().str() + ":" + f, loc(I), "a reference to the " + sp.desc + " is stored without a test against their number", Walk::path(S));
      }
      return true;
    };
    WState init;
    std::vector<Tok> pre;
    if (assume)
      for (auto &kv : needs[&F]) {
        auto &n = kv.second;
        const Value *v = F.getArg(n.arg);
        if (!n.steps.empty()) {
          auto *st = structByName(P, n.steps.back().st);
          Type *ty = st ? st->getElementType(n.steps.back().idx) : nullptr;
          if (!ty || !ty->isIntegerTy()) continue;
          auto &ph = placeholders[F.getName().str() + n.key()];
          if (!ph) ph.reset(new Argument(ty));
          std::string cell = W.cell(init, v);
          for (auto &s : n.steps) cell += "|" + s.st + "#" + std::to_string(s.idx);
          init.mem[cell] = ph.get();
          keep.insert(ph.get());
          v = ph.get();
        }
        for (auto &c : spec(n.table).counts) put(init, {v, cntId[c], LT});
      }
    W.run(init);
    if (!found.empty()) {
      // what the callers have to see to: assume it and look again
      bool news = false;
      for (auto &kv : found) news |= needs[&F].insert(kv).second;
      if (news) changedNeeds.insert(&F);
      if (!assume) return function(F, true);
    }
    if (getenv("TBDBG")) { std::map<int,int> h; errs() << F.getName() << " visited " << visited << " toks " << tok.size() << "\n"; }
    R.note("functions", F.getName().str() + (W.overflow ? " (states merged)" : ""));
  }
  void dbg(const WState &S, const Instruction *I) {
    errs() << "at " << *I << "\n";
    for (int i : S.ts) if (tok[i].v) errs() << "  tok " << *tok[i].v << " " << cntName[tok[i].cnt] << " " << tok[i].k << "\n";
    for (auto &kv : S.fact) { errs() << "  fact " << *kv.first << " "; kv.second.print(errs()); errs() << "\n"; }
    for (auto &kv : S.mem) errs() << "  mem " << kv.first << " = " << *kv.second << "\n";
    for (auto &kv : S.same) errs() << "  same " << *kv.first << " = " << *kv.second << "\n";
  }
  bool known0(Walk &W, const WState &S, const Value *v, int depth = 6) {
    v = W.canon(S, v);
    auto r = W.get(S, v);
    if (r.isSingleElement() && r.getSingleElement()->isZero()) return true;
    const Value *o;
    return depth && downCast(v, o) && known0(W, S, o, depth - 1);
  }
};
} // namespace
static void anTables(Ctx &C, Report &R) {
  Tables T(C, R);
  std::set<const Function *> again;
  for (Function &F : *C.P.M)
    if (!F.isDeclaration() && (!getenv("FN") || F.getName() == getenv("FN"))) again.insert(&F);
  for (int round = 0; round < 6 && !again.empty(); round++) {
    for (auto *F : again) T.function(*F);
    auto ch = std::move(T.changedNeeds);
    T.changedNeeds.clear();
    again.clear();
    for (Function &F : *C.P.M)
      for (Instruction &I : instructions(F))
        if (auto *Cl = dyn_cast<CallBase>(&I); Cl && Cl->getCalledFunction() && ch.count(Cl->getCalledFunction())) again.insert(&F);
    if (round == 5 && !again.empty()) R.broken.push_back("tests left to callers do not settle");
  }
  for (auto &k : T.needs)
    for (auto &n : k.second) R.note("left to callers", k.first->getName().str() + " " + n.second.key());
  R.stats["uses"] = T.uses;
  R.stats["proven"] = T.proven;
  R.stats["trusted"] = T.trusted;
  R.stats["reference_stores"] = T.stores;
  R.stats["visited"] = T.visited;
}
static Reg tb1("tables", anTables, NormOpts());
