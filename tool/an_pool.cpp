// Memory laid out for a loaded file: tables carved out of one block lie inside it and apart from each other, the
// room of a sample lies inside the wave pool before it is filled, and the loop of a sample lies inside the sample.
#include "report.h"
#include "walk.h"
using namespace sv;

namespace {
// linear form over named leaves
struct Lin {
  std::map<std::string, double> c;
  double k = 0;
  bool ok = true;
  bool minus = false; // a subtraction took part: may wrap
  static Lin bad() { Lin l; l.ok = false; return l; }
  static Lin leaf(const std::string &s) { Lin l; l.c[s] = 1; return l; }
  static Lin num(double v) { Lin l; l.k = v; return l; }
  Lin plus(const Lin &o, double f = 1) const {
    Lin r = *this;
    r.ok &= o.ok;
    r.minus |= o.minus;
    r.k += f * o.k;
    for (auto &x : o.c) if ((r.c[x.first] += f * x.second) == 0) r.c.erase(x.first);
    return r;
  }
  Lin times(double f) const { Lin r = num(0).plus(*this, f); r.ok = ok; return r; }
  bool nonNeg() const { if (!ok || k < 0) return false; for (auto &x : c) if (x.second < 0) return false; return true; }
  std::string str() const { std::string s = std::to_string((long)k); for (auto &x : c) s += " + " + std::to_string((long)x.second) + "*" + x.first.substr(0, x.first.find('@')); return s; }
};

// values of memory cells of one function, forwarded along dominators
struct Forward {
  Program &P;
  ModRef &MR;
  const Function &F;
  DominatorTree DT;
  std::map<std::pair<const Instruction *, std::string>, std::pair<const Value *, std::string>> memo;
  std::map<const Value *, std::string> ptrs;
  Forward(Program &P, ModRef &MR, const Function &F) : P(P), MR(MR), F(F), DT(const_cast<Function &>(F)) {}
  std::string vid(const Value *v) { return std::to_string((uintptr_t)v); }
  // name of the value: the same name means the same value
  std::string name(const Value *v, int d = 8) {
    while (isa<CastInst>(v) && v->getType()->isIntegerTy() && cast<CastInst>(v)->getOperand(0)->getType()->isIntegerTy()) v = cast<CastInst>(v)->getOperand(0);
    if (auto *L = dyn_cast<LoadInst>(v); L && d) {
      auto r = held(L, d - 1);
      return r.first ? name(r.first, d - 1) : r.second;
    }
    return "v" + vid(v);
  }
  std::string cell(const Value *p, int d = 8) {
    Addr A = decompose(p);
    std::string s = A.root->getType()->isPointerTy() ? name(A.root, d) : "?";
    for (auto &st : A.steps) {
      if (st.k == Step::Field) s += "|" + st.st + "#" + std::to_string(st.idx);
      else if (auto *K = dyn_cast<ConstantInt>(st.var)) s += "|[" + std::to_string(K->getSExtValue()) + "]";
      else return "";
    }
    return s;
  }
  // value the load yields, or the name of the cell's content at the place it was last changed
  std::pair<const Value *, std::string> held(const LoadInst *L, int d = 8) {
    std::string c = cell(L->getPointerOperand(), d);
    if (c.empty()) return {nullptr, "v" + vid(L)};
    Addr A = decompose(L->getPointerOperand());
    std::string f = ModRef::fieldKey(L->getPointerOperand());
    auto key = std::make_pair((const Instruction *)L, c);
    if (auto it = memo.find(key); it != memo.end()) return it->second;
    memo[key] = {nullptr, "v" + vid(L)};
    auto r = back(L->getParent(), L, c, A, f, d);
    return memo[key] = r;
  }
  bool inTable(const Value *r);
  // 0 untouched, 1 touched, 2 set to *v
  int touches(const Instruction *I, const std::string &c, const Addr &A, const std::string &f, const Value *&v, int d) {
    if (auto *S = dyn_cast<StoreInst>(I)) {
      std::string g = ModRef::fieldKey(S->getPointerOperand());
      Addr B = decompose(S->getPointerOperand());
      if (isa<AllocaInst>(A.root) && isa<AllocaInst>(B.root) && A.root != B.root) return 0;
      if (!f.empty() && !g.empty() && f != g) return 0;
      if (!f.empty() && g.empty() && inTable(B.root)) return 0; // an element of a table is no field of another object
      if (cell(S->getPointerOperand(), d) == c) { v = S->getValueOperand(); return 2; }
      if (isa<AllocaInst>(A.root) && A.root != B.root && MR.local(cast<AllocaInst>(A.root)) && !isa<PHINode>(B.root) && !isa<SelectInst>(B.root)) return 0;
      return 1;
    }
    if (auto *Cl = dyn_cast<CallBase>(I)) {
      if (isDbg(Cl) || isField0(Cl) || isa<LifetimeIntrinsic>(Cl)) return 0;
      if (auto *II = dyn_cast<IntrinsicInst>(Cl); II && !isa<MemIntrinsic>(II)) return 0;
      std::string base = A.root->getType()->isPointerTy() ? name(A.root, d) : "";
      for (unsigned i = 0; i < Cl->arg_size(); i++) {
        auto *x = Cl->getArgOperand(i);
        if (!x->getType()->isPointerTy()) continue;
        std::string g = ModRef::fieldKey(x);
        if (!f.empty() && g == f) return 1;
        if (name(decompose(x).root, d) != base) continue;
        if (!g.empty() && !f.empty() && g != f) continue;
        bool w = false, unk;
        auto cs = callees(P, Cl, &unk);
        if (unk || cs.empty()) w = true;
        for (auto *G : cs) w |= MR.raw[G].count(i) || i >= G->arg_size();
        if (isa<MemIntrinsic>(Cl)) w = i == 0;
        if (w) return 1;
      }
      if (!f.empty())
        for (auto *G : callees(P, Cl)) if (MR.mods[G].count(f)) return 1;
    }
    return 0;
  }
  std::pair<const Value *, std::string> back(const BasicBlock *B, const Instruction *from, const std::string &c, const Addr &A, const std::string &f, int d) {
    auto it = from ? from->getIterator() : B->end();
    while (it != B->begin()) {
      const Instruction *I = &*--it;
      const Value *v = nullptr;
      int t = touches(I, c, A, f, v, d);
      if (t == 2) return {v, ""};
      if (t == 1) return {nullptr, c + "@i" + vid(I)};
    }
    auto *N = DT.getNode(const_cast<BasicBlock *>(B));
    if (!N || !N->getIDom()) return {nullptr, c + "@entry"};
    const BasicBlock *D = N->getIDom()->getBlock();
    if (auto *ri = dyn_cast<Instruction>(A.root); ri && ri->getParent() == B) return {nullptr, c + "@b" + vid(B)};
    // blocks between the dominator and here
    std::set<const BasicBlock *> seen;
    std::vector<const BasicBlock *> w;
    for (auto *Q : predecessors(B)) if (Q != D && seen.insert(Q).second) w.push_back(Q);
    while (!w.empty()) {
      auto *Q = w.back();
      w.pop_back();
      for (auto &I : *Q) { const Value *v; if (touches(&I, c, A, f, v, d)) return {nullptr, c + "@b" + vid(B)}; }
      for (auto *R : predecessors(Q)) if (R != D && seen.insert(R).second) w.push_back(R);
    }
    return back(D, nullptr, c, A, f, d);
  }
  Lin form(const Value *v, int d = 12) {
    if (auto *K = dyn_cast<ConstantInt>(v)) return Lin::num(K->getSExtValue());
    if (!d) return Lin::leaf(name(v));
    if (auto *Z = dyn_cast<CastInst>(v); Z && Z->getOperand(0)->getType()->isIntegerTy()) return form(Z->getOperand(0), d - 1);
    if (auto *L = dyn_cast<LoadInst>(v)) {
      auto r = held(L);
      return r.first ? form(r.first, d - 1) : Lin::leaf(r.second);
    }
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      auto a = [&] { return form(B->getOperand(0), d - 1); };
      auto b = [&] { return form(B->getOperand(1), d - 1); };
      auto *K = dyn_cast<ConstantInt>(B->getOperand(1)), *K0 = dyn_cast<ConstantInt>(B->getOperand(0));
      switch (B->getOpcode()) {
      case Instruction::Add: { auto r = a().plus(b()); if (K && K->isNegative()) r.minus = true; return r; }
      case Instruction::Sub: { auto r = a().plus(b(), -1); r.minus = true; return r; }
      case Instruction::Mul: if (K) return a().times(K->getSExtValue()); if (K0) return b().times(K0->getSExtValue()); {
        Lin x = a(), y = b();
        if (x.ok && x.c.empty()) return y.times(x.k);
        if (y.ok && y.c.empty()) return x.times(y.k);
        return Lin::bad();
      }
      case Instruction::Shl: if (K) return a().times((double)(1ull << K->getZExtValue())); return Lin::bad();
      case Instruction::LShr: case Instruction::AShr: if (K) return a().times(1.0 / (1ull << K->getZExtValue())); return Lin::bad(); // no more than
      case Instruction::UDiv: case Instruction::SDiv: if (K && !K->isZero()) return a().times(1.0 / K->getSExtValue()); return Lin::bad();
      default: break;
      }
    }
    return Lin::leaf(name(v));
  }
  // root and byte offset of a pointer
  std::pair<const Value *, Lin> place(const Value *p, int d = 12) {
    p = stripCasts(p);
    if (!d) return {p, Lin::num(0)};
    if (auto *G = dyn_cast<GetElementPtrInst>(p)) {
      auto r = place(G->getPointerOperand(), d - 1);
      const DataLayout &DL = P.DL();
      MapVector<Value *, APInt> vo;
      APInt k(64, 0);
      if (!G->collectOffset(DL, 64, vo, k)) return {r.first, Lin::bad()};
      r.second.k += k.getSExtValue();
      for (auto &x : vo) r.second = r.second.plus(form(x.first), x.second.getSExtValue());
      return r;
    }
    if (isField0(p)) return place(cast<CallBase>(p)->getArgOperand(0), d - 1);
    if (auto *L = dyn_cast<LoadInst>(p)) {
      auto r = held(L);
      if (r.first) return place(r.first, d - 1);
    }
    return {p, Lin::num(0)};
  }
};

struct Tab { const char *table, *count; };
const Tab tabs[] = {
    {"s_eas_dls_tag.pDLSPrograms", "s_eas_dls_tag.numDLSPrograms"},
    {"s_eas_dls_tag.pDLSRegions", "s_eas_dls_tag.numDLSRegions"},
    {"s_eas_dls_tag.pDLSArticulations", "s_eas_dls_tag.numDLSArticulations"},
    {"s_eas_dls_tag.pDLSSampleLen", "s_eas_dls_tag.numDLSSamples"},
    {"s_eas_dls_tag.pDLSSampleOffsets", "s_eas_dls_tag.numDLSSamples"},
    {"s_eas_dls_tag.pDLSSamples", "SDLS_SYNTHESIZER_DATA.wavePoolSize"},
    {"SDLS_SYNTHESIZER_DATA.wsmpData", "SDLS_SYNTHESIZER_DATA.waveCount"},
    {"s_smf_data_tag.streams", "s_smf_data_tag.numStreams"},
};
bool Forward::inTable(const Value *r) {
  std::set<const Value *> seen;
  std::function<bool(const Value *)> go = [&](const Value *v) -> bool {
    v = decompose(v).root;
    if (!seen.insert(v).second) return true;
    if (auto *Ph = dyn_cast<PHINode>(v)) { for (auto &x : Ph->incoming_values()) if (!go(x.get())) return false; return true; }
    auto *L = dyn_cast<LoadInst>(v);
    if (!L) return false;
    std::string f = decompose(L->getPointerOperand()).field(P);
    for (auto &t : tabs) if (f == t.table) return true;
    return false;
  };
  return go(r);
}
bool isAlloc(const Value *v) { auto *C = dyn_cast<CallBase>(v); return C && calleeName(C) == "EAS_HWMalloc"; }

struct Layout {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  long tables = 0, pairs = 0, counts = 0, loops = 0, fills = 0, recounts = 0, rooms = 0;
  std::map<std::string, uint64_t> elem;
  Layout(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P) {}
  std::string fieldOf(const Value *p) { return decompose(p).field(P); }
  // element size of a table: what its users step by
  void elements() {
    std::map<const Value *, std::string> tabOf;
    std::set<std::string> tn;
    for (auto &t : tabs) tn.insert(t.table);
    for (Function &F : *P.M)
      for (Instruction &I : instructions(F))
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          auto *L = dyn_cast<LoadInst>(stripCasts(G->getPointerOperand()));
          if (!L) continue;
          std::string f = fieldOf(L->getPointerOperand());
          if (!tn.count(f)) continue;
          auto &e = elem[f];
          e = std::max(e, (uint64_t)P.DL().getTypeAllocSize(G->getSourceElementType()));
        }
    elem["s_eas_dls_tag.pDLSSamples"] = 1;
  }
  void layout(const Function &F) {
    struct T { std::string table; const StoreInst *st; const Value *root; Lin at, len; bool known = false; };
    std::vector<T> ts;
    std::map<std::string, std::vector<const StoreInst *>> cnt;
    std::set<std::string> cn;
    for (auto &t : tabs) cn.insert(t.count);
    for (const Instruction &I : instructions(F))
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        std::string f = fieldOf(S->getPointerOperand());
        if (f.empty()) continue;
        if (cn.count(f)) cnt[f].push_back(S);
        if (isa<Constant>(S->getValueOperand())) continue;
        for (auto &t : tabs) if (f == t.table) ts.push_back({f, S, nullptr, {}, {}});
      }
    if (ts.empty()) {
      for (auto &kv : cnt) {
        if (kv.first == "SDLS_SYNTHESIZER_DATA.wavePoolSize" || kv.first == "SDLS_SYNTHESIZER_DATA.waveCount") continue;
        for (auto *S : kv.second) {
          counts++;
          auto *K = dyn_cast<ConstantInt>(S->getValueOperand());
          if (!K || !K->isZero()) R.add(F.getName().str() + ":" + kv.first, loc(S), "the number of elements of a table is changed away from where the table is made");
        }
      }
      return;
    }
    Forward W(P, MR, F);
    for (auto &t : ts) {
      tables++;
      auto pl = W.place(t.st->getValueOperand());
      if (auto *G = dyn_cast<GlobalValue>(pl.first)) { R.note("static tables", t.table + " " + G->getName().str()); continue; }
      if (auto *Ph = dyn_cast<PHINode>(pl.first)) { // memory of the static memory model or an allocation
        const Value *m = nullptr;
        for (auto &x : Ph->incoming_values()) if (isAlloc(W.place(x.get()).first)) m = W.place(x.get()).first;
        if (m) pl.first = m;
      }
      if (!isAlloc(pl.first) || !pl.second.ok) { R.add(F.getName().str() + ":" + t.table, loc(t.st), "a table is set up in memory that was not allocated for it"); continue; }
      t.root = pl.first, t.at = pl.second;
      std::string c;
      for (auto &x : tabs) if (t.table == x.table) c = x.count;
      uint64_t e = elem[t.table];
      if (!e) { R.broken.push_back("no use of " + t.table + " found: element size unknown"); continue; }
      bool found = false;
      if (c == "SDLS_SYNTHESIZER_DATA.wavePoolSize" || c == "SDLS_SYNTHESIZER_DATA.waveCount") {
        // the count lives beside the table: its value when the memory was asked for
        std::set<std::string> names;
        for (const Instruction &I : instructions(F))
          if (auto *L = dyn_cast<LoadInst>(&I); L && fieldOf(L->getPointerOperand()) == c && W.DT.dominates(L, t.st)) {
            auto r = W.held(L);
            if (!W.DT.dominates(L, cast<Instruction>(t.root))) continue;
            t.len = (r.first ? W.form(r.first) : Lin::leaf(r.second)).times(e), found = true; // the last one wins
          }
      } else
        for (auto *S : cnt[c]) {
          counts++;
          if (isa<Constant>(S->getValueOperand()) && cast<ConstantInt>(S->getValueOperand())->isZero()) continue;
          Lin l = W.form(S->getValueOperand()).times(e);
          if (found && l.str() != t.len.str()) R.add(F.getName().str() + ":" + c, loc(S), "the number of elements is set twice to different values");
          t.len = l, found = true;
        }
      if (!found || !t.len.ok) { R.add(F.getName().str() + ":" + t.table, loc(t.st), "a table is set up without the number of its elements"); continue; }
      t.known = true;
      auto *M = cast<CallBase>(t.root);
      Lin size = W.form(M->getArgOperand(1));
      R.note("tables", F.getName().str() + " " + t.table + ": offset " + t.at.str() + ", " + std::to_string(e) + " bytes an element, length " + t.len.str() + " of " + size.str());
      if (!size.plus(t.at, -1).plus(t.len, -1).nonNeg())
        R.add(F.getName().str() + ":" + t.table, loc(t.st), "the table may reach behind the memory allocated for it (offset " + t.at.str() + ", length " + t.len.str() + ", allocated " + size.str() + ")");
      // the object the block begins with
      Addr A = decompose(t.st->getPointerOperand());
      if (W.place(A.root).first == t.root)
        if (auto *ST = structByName(P, A.steps[0].st)) {
          if (!t.at.plus(Lin::num(P.DL().getTypeAllocSize(const_cast<StructType *>(ST))), -1).nonNeg())
            R.add(F.getName().str() + ":" + t.table, loc(t.st), "the table overlaps the object that refers to it");
        }
    }
    for (size_t i = 0; i < ts.size(); i++)
      for (size_t j = 0; j < ts.size(); j++)
        if (auto &a = ts[i], &b = ts[j]; a.known && b.known && a.table == "SDLS_SYNTHESIZER_DATA.wsmpData" && b.table == "s_eas_dls_tag.pDLSSampleLen") {
          pairs++;
          if (!a.len.times(1.0 / elem[a.table]).plus(b.len, -1.0 / elem[b.table]).nonNeg())
            R.add(F.getName().str() + ":" + a.table, loc(a.st), "there are fewer wave descriptions than waves");
        }
    for (size_t i = 0; i < ts.size(); i++)
      for (size_t j = 0; j < i; j++) {
        auto &a = ts[i], &b = ts[j];
        if (!a.known || !b.known || a.root != b.root || a.table == b.table) continue;
        pairs++;
        if (!a.at.plus(b.at, -1).plus(b.len, -1).nonNeg() && !b.at.plus(a.at, -1).plus(a.len, -1).nonNeg())
          R.add(F.getName().str() + ":" + a.table, loc(a.st), "the table may overlap the one at " + loc(b.st) + " (" + a.table + " at " + a.at.str() + ", " + b.table + " at " + b.at.str() + " length " + b.len.str() + ")");
      }
  }

  // --- sample loops -------------------------------------------------------------------------
  static constexpr const char *LS = "S_WSMP_DATA.loopStart", *LL = "S_WSMP_DATA.loopLength";
  // linear form with loop fields and sample lengths as leaves; loads not looked through
  Lin sform(Walk &W, const WState &S, const Value *v, const std::set<const Value *> &lens, int d = 10) {
    if (auto *K = dyn_cast<ConstantInt>(v)) return Lin::num(K->getSExtValue());
    auto *q = W.canon(S, v);
    if (lens.count(v) || lens.count(q)) return Lin::leaf("len");
    v = isa<Constant>(q) ? v : q;
    if (!d) return Lin::bad();
    if (auto *Z = dyn_cast<CastInst>(v); Z && Z->getOperand(0)->getType()->isIntegerTy()) return sform(W, S, Z->getOperand(0), lens, d - 1);
    if (auto *L = dyn_cast<LoadInst>(v)) {
      std::string f = fieldOf(L->getPointerOperand());
      if (f == LS || f == LL) {
        auto *b = W.canon(S, decompose(L->getPointerOperand()).root);
        std::string bn = std::to_string((uintptr_t)b);
        if (!isa<PHINode>(b) && !decompose(L->getPointerOperand()).steps.empty() && decompose(L->getPointerOperand()).steps[0].k == Step::Index) bn += "x";
        return Lin::leaf((f == LS ? "s" : "l") + bn);
      }
      if (f == "s_wt_region_tag.loopEnd") return Lin::leaf("e");
      if (f == "s_wt_region_tag.loopStart") return Lin::leaf("es");
      if (f == "s_eas_dls_tag.pDLSSampleLen" || tableLoad(L) == "s_eas_dls_tag.pDLSSampleLen") return Lin::leaf("len");
      return Lin::bad();
    }
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      auto a = [&] { return sform(W, S, B->getOperand(0), lens, d - 1); };
      auto b = [&] { return sform(W, S, B->getOperand(1), lens, d - 1); };
      auto *K = dyn_cast<ConstantInt>(B->getOperand(1));
      switch (B->getOpcode()) {
      case Instruction::Add: { auto r = a().plus(b()); if (K && K->isNegative()) r.minus = true; return r; }
      case Instruction::Sub: { auto r = a().plus(b(), -1); r.minus = true; return r; }
      case Instruction::Mul: if (K) return a().times(K->getSExtValue()); break;
      case Instruction::Shl: if (K) return a().times((double)(1ull << K->getZExtValue())); break;
      case Instruction::LShr: case Instruction::AShr: if (K) return a().times(1.0 / (1ull << K->getZExtValue())); break;
      case Instruction::UDiv: if (K && !K->isZero()) return a().times(1.0 / K->getZExtValue()); break;
      default: break;
      }
    }
    return Lin::bad();
  }
  std::map<const Value *, std::string> tlMemo;
  std::string tableLoad(const LoadInst *L) {
    auto it = tlMemo.find(L);
    if (it != tlMemo.end()) return it->second;
    Addr A = decompose(L->getPointerOperand());
    std::string r;
    if (auto *B = dyn_cast<LoadInst>(A.root); B && !A.steps.empty() && A.steps.back().k == Step::Index) r = fieldOf(B->getPointerOperand());
    return tlMemo[L] = r;
  }
  // what a comparison known to hold says about loops: 1 the loop with the guard sample lies inside, 2 the sample has room
  // for one frame, 4 there is no loop. base "" accepts the fields of any wave description
  int says(Walk &W, const WState &S, const ICmpInst *I, bool truth, const std::string &base, const std::set<const Value *> &lens, bool &needGuard, bool anyBase) {
    auto pred = truth ? I->getPredicate() : I->getInversePredicate();
    Lin a = sform(W, S, I->getOperand(0), lens), b = sform(W, S, I->getOperand(1), lens);
    if (!a.ok || !b.ok) return 0;
    bool strict = false;
    switch (pred) {
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: strict = true; break;
    case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: break;
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: std::swap(a, b), strict = true; break;
    case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: std::swap(a, b); break;
    case ICmpInst::ICMP_EQ:
      if (a.c.size() == 1 && b.c.empty() && b.k == 0 && a.k == 0) {
        auto &n = a.c.begin()->first;
        if (n[0] == 'l' && n != "len" && (anyBase || n.substr(1) == base)) return 4;
      }
      return 0;
    default: return 0;
    }
    // d >= 0 holds
    Lin d = b.plus(a, -1).plus(Lin::num(strict ? 1 : 0), -1);
    double cl = d.c.count("len") ? d.c["len"] : 0;
    if (cl <= 0) {
      // a length of zero, written as < 1
      if (d.c.size() == 1 && d.c.begin()->second < 0) { auto &n = d.c.begin()->first; if (n[0] == 'l' && n != "len" && d.k == 0 && (anyBase || n.substr(1) == base)) return 4; }
      return 0;
    }
    d = d.times(1 / cl);
    double s = 0, l = 0, e = 0;
    bool other = false;
    for (auto &x : d.c) {
      if (x.first == "len") continue;
      if (x.first == "e") e = x.second;
      else if (x.first == "es") other |= x.second > 0;
      else if (anyBase || x.first.substr(1) == base) (x.first[0] == 's' ? s : l) += x.second;
      else other |= x.second > 0;
    }
    if (other) return 0;
    int r = 0;
    if (d.c.size() == 1 && d.k <= -2) r |= 2;
    if (((s <= -2 && l <= -2) || e <= -2) && d.k <= -2) {
      r |= 1;
      if (b.minus) needGuard = true;
    }
    if (a.minus) return 0;
    return r;
  }
  // tokens: 1 the loop was compared with the sample, 2 the sample holds a frame, 3 the comparison relies on it, 4 settled
  void note(Walk &W, WState &S, const BasicBlock *from, const BasicBlock *to, const std::string &base, const std::set<const Value *> &lens, bool anyBase) {
    auto *Br = dyn_cast<BranchInst>(from->getTerminator());
    if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) return;
    std::function<void(const Value *, bool, int)> cond = [&](const Value *c, bool truth, int d) {
      if (auto *I = dyn_cast<ICmpInst>(c)) {
        bool g = false;
        int r = says(W, S, I, truth, base, lens, g, anyBase);
        auto put = [&](int t) { auto it = std::lower_bound(S.ts.begin(), S.ts.end(), t); if (it == S.ts.end() || *it != t) S.ts.insert(it, t); };
        if (r & 1) { put(1); if (g) put(3); }
        if (r & 2) put(2);
        if (r & 4) put(4);
        return;
      }
      if (!d) return;
      if (auto *Se = dyn_cast<SelectInst>(c); Se && Se->getType()->isIntegerTy(1)) {
        auto *T = dyn_cast<ConstantInt>(Se->getTrueValue()), *E = dyn_cast<ConstantInt>(Se->getFalseValue());
        if (T && T->isOne() && !truth) { cond(Se->getCondition(), false, d - 1); cond(Se->getFalseValue(), false, d - 1); }
        if (E && E->isZero() && truth) { cond(Se->getCondition(), true, d - 1); cond(Se->getTrueValue(), true, d - 1); }
        return;
      }
      auto *B = dyn_cast<BinaryOperator>(c);
      if (!B) return;
      if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) return cond(B->getOperand(0), !truth, d - 1);
      if ((B->getOpcode() == Instruction::And && truth) || (B->getOpcode() == Instruction::Or && !truth)) { cond(B->getOperand(0), truth, d - 1); cond(B->getOperand(1), truth, d - 1); }
    };
    cond(Br->getCondition(), Br->getSuccessor(0) == to, 6);
  }
  static bool hasT(const WState &S, int t) { return std::binary_search(S.ts.begin(), S.ts.end(), t); }
  static bool settled(const WState &S) { return hasT(S, 4) || (hasT(S, 1) && (hasT(S, 2) || !hasT(S, 3))); }
  void regionLoops(const Function &F) {
    for (const Instruction &I : instructions(F)) {
      auto *St = dyn_cast<StoreInst>(&I);
      if (!St || fieldOf(St->getPointerOperand()) != "s_wt_region_tag.loopEnd" || isa<Constant>(St->getValueOperand())) continue;
      loops++;
      // the wave description the loop comes from
      const Value *base = nullptr;
      std::set<const Value *> seen;
      std::function<void(const Value *, int)> find = [&](const Value *v, int d) {
        if (!d || !seen.insert(v).second) return;
        if (auto *L = dyn_cast<LoadInst>(v)) { std::string f = fieldOf(L->getPointerOperand()); if (f == LS || f == LL) base = decompose(L->getPointerOperand()).root; return; }
        if (auto *U = dyn_cast<User>(v); U && isa<Instruction>(U)) for (auto &o : U->operands()) if (o->getType()->isIntegerTy()) find(o, d - 1);
      };
      find(St->getValueOperand(), 8);
      if (!base) { R.add(F.getName().str() + ":loopEnd", loc(St), "the loop end of a region is set to something that is not the loop of its wave"); continue; }
      // the index the region refers to
      std::set<const Value *> waves;
      const Value *reg = decompose(St->getPointerOperand()).root;
      for (const Instruction &J : instructions(F))
        if (auto *S2 = dyn_cast<StoreInst>(&J); S2 && fieldOf(S2->getPointerOperand()) == "s_wt_region_tag.waveIndex" && decompose(S2->getPointerOperand()).root == reg) waves.insert(root(S2->getValueOperand()));
      std::set<const Value *> lens; // lengths of the wave the region plays
      for (const Instruction &J : instructions(F))
        if (auto *L = dyn_cast<LoadInst>(&J); L && tableLoad(L) == "s_eas_dls_tag.pDLSSampleLen") {
          auto *ix = decompose(L->getPointerOperand()).steps.back().var;
          if (waves.count(root(ix))) lens.insert(L);
        }
      bool bad = false, checked = false;
      std::vector<std::string> path;
      auto run = [&](const Instruction *from, bool stored) {
        Walk W(P, F, MR);
        W.maxStates = 8;
        bad = checked = false;
        W.edge = [&](const BasicBlock *a, const BasicBlock *b, WState &S) { note(W, S, a, b, std::to_string((uintptr_t)W.canon(S, base)), lens, false); };
        auto open = [&](const WState &S) { if (!bad) path = Walk::path(S); bad = true; };
        W.inst = [&](const Instruction *J, WState &S, std::vector<WState> &) {
          if (J == St) { S.ts.insert(std::lower_bound(S.ts.begin(), S.ts.end(), 5), 5); }
          if (hasT(S, 5) && settled(S)) { checked = true; return false; }
          if (auto *X = dyn_cast<StoreInst>(J); X && fieldOf(X->getPointerOperand()) == "SDLS_SYNTHESIZER_DATA.regionCount") {
            if (hasT(S, 5)) open(S);
            return false;
          }
          return !bad;
        };
        W.ret = [&](const ReturnInst *Rt, WState &S) {
          if (!hasT(S, 5)) return;
          if (settled(S)) { checked = true; return; }
          if (!Rt->getReturnValue() || !Rt->getReturnValue()->getType()->isIntegerTy() || !W.nonZero(S, Rt->getReturnValue())) open(S);
        };
        WState init;
        if (stored) init.ts = {5};
        W.runAfter(from, init);
      };
      run(St, true);
      if (bad) // the test may come first
        if (auto *D = dyn_cast<Instruction>(base); D && D->getParent() != &F.getEntryBlock()) run(D, false);
      if (bad) R.add(F.getName().str() + ":loopEnd", loc(St), "a region is kept whose loop was not compared with the length of the sample it plays", path);
      R.note("region loops", loc(St) + (bad ? " open" : checked ? " compared before the region is kept" : " the region is never kept"));
    }
  }
  static const Value *root(const Value *v) {
    while (auto *Z = dyn_cast<CastInst>(v)) { if (!Z->getOperand(0)->getType()->isIntegerTy()) break; v = Z->getOperand(0); }
    return v;
  }

  // --- filling the wave pool -----------------------------------------------------------------
  void poolFill(const Function &F) {
    // pointers into the pool
    std::set<const Value *> pool;
    std::vector<const Value *> w;
    for (const Instruction &I : instructions(F))
      if (auto *L = dyn_cast<LoadInst>(&I); L && fieldOf(L->getPointerOperand()) == "s_eas_dls_tag.pDLSSamples") pool.insert(L), w.push_back(L);
    if (pool.empty()) return;
    while (!w.empty()) {
      auto *v = w.back();
      w.pop_back();
      for (auto *U : v->users())
        if ((isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<CastInst>(U) || isa<SelectInst>(U)) && pool.insert(U).second) w.push_back(U);
    }
    struct Wr { const Instruction *I; const Value *p; double unit; };
    std::vector<Wr> writes;
    for (const Instruction &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I); S && pool.count(S->getPointerOperand())) writes.push_back({S, S->getPointerOperand(), 0});
      else if (auto *M = dyn_cast<MemIntrinsic>(&I); M && pool.count(M->getDest())) writes.push_back({M, M->getDest(), 1});
      else if (auto *Cl = dyn_cast<CallBase>(&I); Cl && !isDbg(Cl) && !isField0(Cl))
        for (auto &x : Cl->args()) if (pool.count(x.get())) writes.push_back({Cl, x.get(), 1});
    }
    if (writes.empty()) return;
    fills++;
    Forward W(P, MR, F);
    // the step of the pool offset, its test and the length stored
    const StoreInst *step = nullptr, *len = nullptr;
    for (const Instruction &I : instructions(F))
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        std::string f = fieldOf(S->getPointerOperand());
        if (f == "SDLS_SYNTHESIZER_DATA.wavePoolOffset" && !isa<Constant>(S->getValueOperand())) { if (step) R.add(F.getName().str() + ":wavePoolOffset", loc(S), "the wave pool offset is moved in two places"); step = S; }
        Addr A = decompose(S->getPointerOperand());
        if (auto *L = dyn_cast<LoadInst>(A.root); L && fieldOf(L->getPointerOperand()) == "s_eas_dls_tag.pDLSSampleLen") len = S;
      }
    if (!step || !len) { R.add(F.getName().str() + ":pool", locF(&F), "the wave pool is filled without taking the room from it"); return; }
    Lin size = W.form(len->getValueOperand());
    Lin nw = W.form(step->getValueOperand());
    // where the filling starts
    const Value *start = nullptr;
    Lin at;
    for (auto *v : pool)
      if (auto *G = dyn_cast<GetElementPtrInst>(v); G && isa<LoadInst>(stripCasts(G->getPointerOperand())) && fieldOf(cast<LoadInst>(stripCasts(G->getPointerOperand()))->getPointerOperand()) == "s_eas_dls_tag.pDLSSamples") {
        auto pl = W.place(G);
        start = G, at = pl.second;
        rooms++;
        Lin room = nw.plus(at, -1).plus(size, -1);
        if (!room.ok || !room.nonNeg()) R.add(F.getName().str() + ":room", loc(G), "the room of a sample in the pool is not the stretch the pool offset is moved by (starts at " + at.str() + ", length " + size.str() + ", next " + nw.str() + ")");
      }
    if (!start) { R.add(F.getName().str() + ":pool", loc(writes[0].I), "a sample is written at the start of the pool"); return; }
    // every write comes behind a test of the moved offset against the size of the pool
    std::set<std::pair<const BasicBlock *, const BasicBlock *>> good;
    for (const BasicBlock &B : F) {
      auto *Br = dyn_cast<BranchInst>(B.getTerminator());
      if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
      for (int s = 0; s < 2; s++) {
        std::function<bool(const Value *, bool, int)> cond = [&](const Value *c, bool truth, int d) -> bool {
          if (auto *I = dyn_cast<ICmpInst>(c)) {
            auto pred = truth ? I->getPredicate() : I->getInversePredicate();
            Lin a = W.form(I->getOperand(0)), b = W.form(I->getOperand(1));
            if (pred == ICmpInst::ICMP_UGE || pred == ICmpInst::ICMP_UGT || pred == ICmpInst::ICMP_SGT || pred == ICmpInst::ICMP_SGE) { std::swap(a, b); pred = ICmpInst::getSwappedPredicate(pred); }
            if (pred != ICmpInst::ICMP_ULT && pred != ICmpInst::ICMP_ULE && pred != ICmpInst::ICMP_SLT && pred != ICmpInst::ICMP_SLE) return false;
            if (a.minus) return false;
            // b - a is "pool size - something": how much is left of it beside the moved offset
            std::string ps;
            for (auto &x : b.c) if (x.second == 1 && x.first.find("SDLS_SYNTHESIZER_DATA#" + psIdx()) != std::string::npos) ps = x.first;
            if (ps.empty() || b.minus) return false;
            b = b.plus(Lin::leaf(ps), -1);
            Lin rest = a.plus(b, -1).plus(nw, -1); // offset tested - offset moved to
            return rest.ok && rest.nonNeg();
          }
          auto *O = dyn_cast<BinaryOperator>(c);
          if (!O || !d) return false;
          if (O->getOpcode() == Instruction::Xor && isa<ConstantInt>(O->getOperand(1))) return cond(O->getOperand(0), !truth, d - 1);
          if ((O->getOpcode() == Instruction::And && truth) || (O->getOpcode() == Instruction::Or && !truth)) return cond(O->getOperand(0), truth, d - 1) || cond(O->getOperand(1), truth, d - 1);
          return false;
        };
        if (cond(Br->getCondition(), s == 0, 6)) good.insert({&B, Br->getSuccessor(s)});
      }
    }
    auto guarded = [&](const Instruction *I) {
      for (auto &g : good) if (W.DT.dominates(BasicBlockEdge(g.first, g.second), I->getParent())) return true;
      return false;
    };
    auto *lp = step->getParent();
    (void)lp;
    for (auto &x : writes) {
      if (!guarded(x.I)) { R.add(F.getName().str() + ":pool", loc(x.I), "sample data is written into the pool before its end was compared with the size of the pool"); continue; }
      R.note("pool writes", loc(x.I) + " behind the test of the pool size");
    }
    // the room is large enough for what one wave brings
    LoopInfo LI(W.DT);
    for (auto &x : writes) {
      auto *L = LI.getLoopFor(x.I->getParent());
      if (!L) { // one sample copied: its position is limited by the loop test
        loopCopy(F, W, x.I, x.p, len, start);
        continue;
      }
      // the outermost loop inside the one that goes over the waves
      auto *SL = LI.getLoopFor(step->getParent());
      while (L->getParentLoop() && L->getParentLoop() != SL) L = L->getParentLoop();
      if (L == SL) { loopCopy(F, W, x.I, x.p, len, start); continue; }
      // bytes of input the loop works through
      const Value *total = nullptr;
      for (auto *B : L->blocks()) {
        auto *Br = dyn_cast<BranchInst>(B->getTerminator());
        if (!Br || !Br->isConditional() || !L->isLoopExiting(B)) continue;
        if (auto *I = dyn_cast<ICmpInst>(Br->getCondition()))
          if (auto *Ph = dyn_cast<PHINode>(I->getOperand(0)); Ph && Ph->getParent() == L->getHeader() && isa<ConstantInt>(I->getOperand(1)))
            for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) if (!L->contains(Ph->getIncomingBlock(i))) total = Ph->getIncomingValue(i);
      }
      if (!total) { R.add(F.getName().str() + ":pool", loc(x.I), "the amount of sample data written here is not known"); continue; }
      // a scalar store of n bytes in an inner loop over the input bytes takes n bytes for each
      double unit = x.unit ? x.unit : P.DL().getTypeStoreSize(cast<StoreInst>(x.I)->getValueOperand()->getType());
      Lin need = W.form(total).times(unit);
      auto lw = literals(W, x.I->getParent());
      for (auto &v : variants(W, len->getValueOperand(), 6, root(total))) {
        bool clash = false;
        for (auto &a : lw) for (auto &b : v.lits) clash |= a.first == b.first && a.second != b.second;
        if (clash) continue;
        rooms++;
        Lin rest = W.form(v.v).plus(need, -1);
        if (!rest.ok || !rest.nonNeg()) R.add(F.getName().str() + ":room", loc(x.I), "the sample data written here may be longer than the room taken for it (" + W.form(v.v).str() + " for " + need.str() + ")");
      }
    }
  }
  std::string psIdx() {
    auto it = P.members.find("SDLS_SYNTHESIZER_DATA");
    (void)it;
    auto *ST = structByName(P, "SDLS_SYNTHESIZER_DATA");
    for (unsigned i = 0; ST && i < ST->getNumElements(); i++)
      if (fieldName(P, "SDLS_SYNTHESIZER_DATA", i, ST).find("wavePoolSize") != std::string::npos) return std::to_string(i);
    return "none";
  }
  // comparisons of a field with a constant that decide whether a block is reached
  using Lits = std::set<std::pair<std::string, bool>>;
  Lits literals(Forward &W, const BasicBlock *B) {
    Lits r;
    auto *N = W.DT.getNode(const_cast<BasicBlock *>(B));
    for (; N && N->getIDom(); N = N->getIDom()) {
      auto *D = N->getIDom()->getBlock();
      edgeLits(W, D, B, r);
    }
    return r;
  }
  void edgeLits(Forward &W, const BasicBlock *D, const BasicBlock *B, Lits &r) {
    auto *Br = dyn_cast<BranchInst>(D->getTerminator());
    if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) return;
    auto *I = dyn_cast<ICmpInst>(Br->getCondition());
    if (!I || !isa<ConstantInt>(I->getOperand(1)) || !I->isEquality()) return;
    auto *L = dyn_cast<LoadInst>(root(I->getOperand(0)));
    if (!L) return;
    std::string f = fieldOf(L->getPointerOperand());
    if (f.empty()) return;
    for (int s = 0; s < 2; s++)
      if (W.DT.dominates(BasicBlockEdge(D, Br->getSuccessor(s)), B))
        r.insert({f + "=" + std::to_string(cast<ConstantInt>(I->getOperand(1))->getSExtValue()), (s == 0) == (I->getPredicate() == ICmpInst::ICMP_EQ)});
  }
  struct Var { const Value *v; Lits lits; };
  std::vector<Var> variants(Forward &W, const Value *v, int d, const Value *stop) {
    std::vector<Var> r;
    v = root(v);
    if (v == stop) d = 0;
    if (auto *Ph = dyn_cast<PHINode>(v); Ph && d) {
      for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) {
        auto *B = Ph->getIncomingBlock(i);
        Lits here = literals(W, B);
        // the edge itself
        if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()); Br && Br->isConditional())
          if (auto *I = dyn_cast<ICmpInst>(Br->getCondition()); I && I->isEquality() && isa<ConstantInt>(I->getOperand(1)))
            if (auto *L = dyn_cast<LoadInst>(root(I->getOperand(0))); L && !fieldOf(L->getPointerOperand()).empty())
              here.insert({fieldOf(L->getPointerOperand()) + "=" + std::to_string(cast<ConstantInt>(I->getOperand(1))->getSExtValue()), (Br->getSuccessor(0) == Ph->getParent()) == (I->getPredicate() == ICmpInst::ICMP_EQ)});
        for (auto &x : variants(W, Ph->getIncomingValue(i), d - 1, stop)) {
          Var y = x;
          bool clash = false;
          for (auto &l : here) { for (auto &m : y.lits) clash |= l.first == m.first && l.second != m.second; y.lits.insert(l); }
          if (!clash) r.push_back(y);
        }
      }
      return r;
    }
    if (auto *S = dyn_cast<SelectInst>(v); S && d) {
      Lits a, b;
      if (auto *I = dyn_cast<ICmpInst>(S->getCondition()); I && I->isEquality() && isa<ConstantInt>(I->getOperand(1)))
        if (auto *L = dyn_cast<LoadInst>(root(I->getOperand(0))); L && !fieldOf(L->getPointerOperand()).empty()) {
          std::string n = fieldOf(L->getPointerOperand()) + "=" + std::to_string(cast<ConstantInt>(I->getOperand(1))->getSExtValue());
          a.insert({n, I->getPredicate() == ICmpInst::ICMP_EQ}), b.insert({n, I->getPredicate() != ICmpInst::ICMP_EQ});
        }
      for (auto &x : variants(W, S->getTrueValue(), d - 1, stop)) { x.lits.insert(a.begin(), a.end()); r.push_back(x); }
      for (auto &x : variants(W, S->getFalseValue(), d - 1, stop)) { x.lits.insert(b.begin(), b.end()); r.push_back(x); }
      return r;
    }
    if (auto *B = dyn_cast<BinaryOperator>(v); B && d && isa<ConstantInt>(B->getOperand(1)) && (isa<PHINode>(root(B->getOperand(0))) || isa<SelectInst>(root(B->getOperand(0)))) && B->getOpcode() == Instruction::Add && !cast<ConstantInt>(B->getOperand(1))->isNegative())
      return variants(W, B->getOperand(0), d - 1, stop); // only more room
    r.push_back({v, {}});
    return r;
  }
  // a sample copied within the pool: no further than the loop that was compared with the length of the sample
  void loopCopy(const Function &F, Forward &FW, const Instruction *I, const Value *p, const StoreInst *len, const Value *) {
    auto *G = dyn_cast<GetElementPtrInst>(p);
    rooms++;
    std::set<const Value *> lens;
    for (const Instruction &J : instructions(F)) if (J.getType()->isIntegerTy() && root(&J) == root(len->getValueOperand())) lens.insert(&J);
    lens.insert(len->getValueOperand()), lens.insert(root(len->getValueOperand()));
    if (!G || G->getNumIndices() != 1) { R.add(F.getName().str() + ":pool", loc(I), "a sample is written at an unknown place of the pool"); return; }
    Walk W(P, F, MR);
    W.maxStates = 8;
    bool bad = false, met = false;
    // base: the wave description the index is computed from
    W.edge = [&](const BasicBlock *a, const BasicBlock *b, WState &S) { note(W, S, a, b, "", lens, true); };
    W.inst = [&](const Instruction *J, WState &S, std::vector<WState> &) {
      if (J == len && !S.trail.empty()) { S.ts.clear(); }
      if (J != I) return true;
      met = true;
      Lin ix = sform(W, S, G->getOperand(1), lens).times(P.DL().getTypeAllocSize(G->getSourceElementType()));
      double s = 0, l = 0;
      bool odd = !ix.ok;
      for (auto &x : ix.c) { if (x.first == "len") odd = true; else if (x.first[0] == 's') s += x.second; else if (x.first[0] == 'l') l += x.second; else odd = true; }
      bool fine = !odd && s <= 2 && l <= 2 && ix.k <= 0 && settled(S) && !hasT(S, 4);
      if (!fine && !bad) bad = true, R.add(F.getName().str() + ":pool", loc(I), "the guard sample of a loop is written without the loop having been compared with the length of the sample", Walk::path(S));
      return false;
    };
    W.runAfter(len, WState());
    (void)FW;
    R.note("pool writes", loc(I) + (bad ? " open" : met ? " inside the loop compared with the sample" : " not reached"));
  }

  // --- a count read again ----------------------------------------------------------------------
  void recount(const Function &F) {
    for (const Instruction &I : instructions(F)) {
      auto *Cl = dyn_cast<CallBase>(&I);
      if (!Cl || isDbg(Cl) || isField0(Cl)) continue;
      bool hit = false;
      for (auto &x : Cl->args()) hit |= x->getType()->isPointerTy() && fieldOf(x.get()) == "SDLS_SYNTHESIZER_DATA.waveCount";
      if (!hit) continue;
      recounts++;
      // made before the collection exists: nothing to agree with
      Walk W(P, F, MR);
      W.maxStates = 8;
      bool bad = false;
      auto fromField = [&](Walk &W, const WState &S, const Value *v, const char *f) {
        for (int i = 0; i < 2; i++, v = W.canon(S, v)) if (auto *L = dyn_cast<LoadInst>(root(v)); L && fieldOf(L->getPointerOperand()) == f) return true;
        return false;
      };
      W.edge = [&](const BasicBlock *a, const BasicBlock *b, WState &S) {
        auto *Br = dyn_cast<BranchInst>(a->getTerminator());
        if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) return;
        std::function<void(const Value *, bool, int)> cond = [&](const Value *c, bool truth, int d) {
          if (auto *J = dyn_cast<ICmpInst>(c)) {
            auto pred = truth ? J->getPredicate() : J->getInversePredicate();
            auto is = [&](int x, const char *f) { return fromField(W, S, J->getOperand(x), f); };
            const char *wc = "SDLS_SYNTHESIZER_DATA.waveCount", *ns = "s_eas_dls_tag.numDLSSamples";
            bool fw = is(0, wc) && is(1, ns), bw = is(0, ns) && is(1, wc);
            if (pred == ICmpInst::ICMP_EQ && (fw || bw)) S.ts = {1};
            if (fw && (pred == ICmpInst::ICMP_ULE || pred == ICmpInst::ICMP_ULT || pred == ICmpInst::ICMP_SLE)) S.ts = {1};
            if (bw && (pred == ICmpInst::ICMP_UGE || pred == ICmpInst::ICMP_UGT || pred == ICmpInst::ICMP_SGE)) S.ts = {1};
            if (pred == ICmpInst::ICMP_EQ && isa<ConstantPointerNull>(J->getOperand(1)) && is(0, "SDLS_SYNTHESIZER_DATA.pDLS")) S.ts = {1};
            return;
          }
          auto *B = dyn_cast<BinaryOperator>(c);
          if (!B || !d) return;
          if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) return cond(B->getOperand(0), !truth, d - 1);
          if ((B->getOpcode() == Instruction::And && truth) || (B->getOpcode() == Instruction::Or && !truth)) { cond(B->getOperand(0), truth, d - 1); cond(B->getOperand(1), truth, d - 1); }
        };
        cond(Br->getCondition(), Br->getSuccessor(0) == b, 6);
      };
      auto fail = [&](const Instruction *J, const WState &S) {
        if (!bad) R.add(F.getName().str() + ":waveCount", loc(J), "the number of waves read again (" + loc(Cl) + ") is used without having been compared with the number the tables were made for", Walk::path(S));
        bad = true;
      };
      W.inst = [&](const Instruction *J, WState &S, std::vector<WState> &) {
        if (!S.ts.empty()) return false;
        std::string f;
        if (auto *L = dyn_cast<LoadInst>(J)) f = fieldOf(L->getPointerOperand());
        if (f == "s_eas_dls_tag.pDLSSampleLen" || f == "s_eas_dls_tag.pDLSSampleOffsets" || f == "SDLS_SYNTHESIZER_DATA.wsmpData") { fail(J, S); return false; }
        return true;
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) {
        if (!S.ts.empty()) return;
        if (!Rt->getReturnValue() || !Rt->getReturnValue()->getType()->isIntegerTy() || !W.nonZero(S, Rt->getReturnValue())) fail(Rt, S);
      };
      W.runAfter(Cl, WState());
      R.note("counts read again", loc(Cl) + (bad ? " open" : ""));
    }
  }
};
} // namespace
static void anLayout(Ctx &C, Report &R) {
  Layout L(C, R);
  L.elements();
  for (Function &F : *C.P.M) {
    if (F.isDeclaration()) continue;
    L.layout(F);
    L.regionLoops(F);
    L.poolFill(F);
    L.recount(F);
  }
  R.stats["tables"] = L.tables;
  R.stats["pairs"] = L.pairs;
  R.stats["count_stores"] = L.counts;
  R.stats["region_loops"] = L.loops;
  R.stats["pool_fills"] = L.fills;
  R.stats["rooms"] = L.rooms;
  R.stats["recounts"] = L.recounts;
}
static Reg lay("layout", anLayout, NormOpts());
