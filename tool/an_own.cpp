// Ownership of file handles, memory blocks, sound collections and synthesizers.
#include "walk.h"
#include "report.h"
#include "cg.h"
using namespace sv;
using CR = ConstantRange;

namespace {
const Value *strip(const Value *v) {
  for (;;) {
    if (auto *A = decompose(v).root; A != v && decompose(v).steps.empty()) { v = A; continue; }
    if (auto *C = dyn_cast<CastInst>(v); C && (isa<PtrToIntInst>(C) || isa<IntToPtrInst>(C) || isa<BitCastInst>(C))) { v = C->getOperand(0); continue; }
    return v;
  }
}

template <class T, class U> int intern(std::vector<T> &v, const U &x) {
  for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return i;
  v.push_back(x);
  return v.size() - 1;
}
struct Own {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  CG cg;
  struct Acq { std::string kind; int out; }; // out -1: the result
  std::map<const Function *, std::vector<Acq>> acq;
  std::map<const Function *, std::set<unsigned>> rel, cap, addref;
  std::map<std::string, std::set<std::string>> owner;          // field -> kinds
  std::map<std::string, std::vector<const CallBase *>> relOf;  // field -> release sites
  std::vector<std::unique_ptr<GlobalVariable>> toks;
  const Value *tok() {
    toks.emplace_back(new GlobalVariable(PointerType::get(P.M->getContext(), 0), false, GlobalValue::PrivateLinkage));
    return toks.back().get();
  }
  Own(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P), cg(C.P) {}

  // wrappers around the system allocator and the file table are the primitives
  bool prim(const Function *F) { return F->getName().starts_with("EAS_HW"); }

  void summaries() {
    auto set = [&](const char *n, unsigned i) { if (auto *F = P.M->getFunction(n)) rel[F].insert(i); };
    set("EAS_HWFree", 1); set("EAS_HWCloseFile", 1); set("EAS_HWShutdown", 0); set("free", 0);
    auto setA = [&](const char *n, const char *k, int o) { if (auto *F = P.M->getFunction(n)) acq[F].push_back({k, o}); };
    setA("EAS_HWMalloc", "memory block", -1); setA("malloc", "memory block", -1); setA("calloc", "memory block", -1); setA("realloc", "memory block", -1);
    setA("EAS_HWOpenFile", "file handle", 2); setA("EAS_HWDupHandle", "file handle", 2); setA("EAS_HWInit", "host instance", 0);
    bool ch = true;
    auto argOf = [](const Value *v) { // parameters a value may be
      std::set<const Argument *> r;
      std::set<const Value *> seen;
      std::function<void(const Value *)> go = [&](const Value *x) {
        x = strip(x);
        if (!seen.insert(x).second) return;
        if (auto *A = dyn_cast<Argument>(x)) r.insert(A);
        else if (auto *Ph = dyn_cast<PHINode>(x)) for (auto &o : Ph->incoming_values()) go(o);
        else if (auto *S = dyn_cast<SelectInst>(x)) go(S->getTrueValue()), go(S->getFalseValue());
      };
      go(v);
      return r;
    };
    while (ch) {
      ch = false;
      for (Function &F : *P.M) {
        if (F.isDeclaration()) continue;
        for (Instruction &I : instructions(F)) {
          if (auto *S = dyn_cast<StoreInst>(&I)) {
            if (!isa<AllocaInst>(decompose(S->getPointerOperand()).root)) {
              for (auto *A : argOf(S->getValueOperand())) if (cap[&F].insert(A->getArgNo()).second) ch = true;
              // x->refCount++ : any stored value computed as load of the same address + 1
              if (auto *B = dyn_cast<BinaryOperator>(strip(S->getValueOperand())); B && B->getOpcode() == Instruction::Add)
                if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->isOne())
                  if (auto *L = dyn_cast<LoadInst>(B->getOperand(0)); L && decompose(S->getPointerOperand()).field(P).find("refCount") != std::string::npos)
                    for (auto *A : argOf(decompose(S->getPointerOperand()).root)) if (addref[&F].insert(A->getArgNo()).second) ch = true;
            }
          }
          auto *Cl = dyn_cast<CallBase>(&I);
          if (!Cl || isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl)) continue;
          for (auto *G : callees(P, Cl))
            for (unsigned i = 0; i < Cl->arg_size(); i++)
              for (auto *A : argOf(Cl->getArgOperand(i))) {
                if (rel[G].count(i) && rel[&F].insert(A->getArgNo()).second) ch = true;
                if (cap[G].count(i) && cap[&F].insert(A->getArgNo()).second) ch = true;
                if (addref[G].count(i) && addref[&F].insert(A->getArgNo()).second) ch = true;
              }
        }
      }
    }
  }

  bool releases(const CallBase *Cl, unsigned i) {
    for (auto *G : callees(P, Cl)) if (rel.count(G) && rel[G].count(i)) return true;
    return false;
  }
  // fields whose contents a function (or what it calls) releases
  std::map<const Function *, std::set<std::string>> relField;
  static void loadsOf(const Value *v, std::set<const Value *> &seen, std::vector<const LoadInst *> &out) {
    v = strip(v);
    if (!seen.insert(v).second) return;
    if (auto *L = dyn_cast<LoadInst>(v)) out.push_back(L);
    else if (auto *Ph = dyn_cast<PHINode>(v)) for (auto &o : Ph->incoming_values()) loadsOf(o, seen, out);
    else if (auto *S = dyn_cast<SelectInst>(v)) loadsOf(S->getTrueValue(), seen, out), loadsOf(S->getFalseValue(), seen, out);
  }
  static std::set<std::string> fieldsOf(const Value *v) {
    std::set<const Value *> seen;
    std::vector<const LoadInst *> out;
    loadsOf(v, seen, out);
    std::set<std::string> r;
    for (auto *L : out) if (auto k = ModRef::fieldKey(L->getPointerOperand()); !k.empty()) r.insert(k);
    return r;
  }
  void relFields() {
    bool ch = true;
    while (ch) {
      ch = false;
      for (Function &F : *P.M)
        for (Instruction &I : instructions(F)) {
          auto *C = dyn_cast<CallBase>(&I);
          if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) continue;
          for (unsigned i = 0; i < C->arg_size(); i++)
            if (releases(C, i)) for (auto &k : fieldsOf(C->getArgOperand(i))) if (relField[&F].insert(k).second) ch = true;
          for (auto *G : callees(P, C)) { auto g = relField[G]; for (auto &k : g) if (relField[&F].insert(k).second) ch = true; }
        }
    }
  }
  bool callReleasesField(const CallBase *Cl, const std::string &f) {
    for (auto *G : callees(P, Cl)) if (relField[G].count(f)) return true;
    return false;
  }
  bool captures(const CallBase *Cl, unsigned i) {
    for (auto *G : callees(P, Cl)) if (cap.count(G) && cap[G].count(i) && !(addref.count(G) && addref[G].count(i))) return true;
    return false;
  }
  bool isCheck(const CallBase *Cl) {
    std::string s;
    callees(P, Cl, nullptr, &s);
    return s.find("pfCheckFileType") != std::string::npos;
  }
  // the static memory model is compiled out
  bool staticModel = true;
  std::map<const LoadInst *, bool> modelLoad;
  bool isModel(const LoadInst *L) {
    if (!L->getType()->isIntegerTy()) return false;
    auto it = modelLoad.find(L);
    if (it != modelLoad.end()) return it->second;
    return modelLoad[L] = decompose(L->getPointerOperand()).field(P).find("staticMemoryModel") != std::string::npos;
  }
  void model(Walk &W) {
    auto old = W.inst;
    W.inst = [this, &W, old](const Instruction *I, WState &S, std::vector<WState> &x) {
      if (!staticModel) {
        if (auto *L = dyn_cast<LoadInst>(I); L && isModel(L))
          if (!W.refine(S, L, CR(APInt::getZero(Walk::bits(L))))) return false;
        if (auto *Cl = dyn_cast<CallBase>(I); Cl && calleeName(Cl) == "EAS_CMStaticMemoryModel")
          if (!W.refine(S, Cl, CR(APInt::getZero(Walk::bits(Cl))))) return false;
      }
      return old ? old(I, S, x) : true;
    };
  }
  void findModel() {
    auto *F = P.M->getFunction("EAS_CMStaticMemoryModel");
    if (!F || F->isDeclaration()) return;
    staticModel = false;
    for (auto &B : *F)
      if (auto *Rt = dyn_cast<ReturnInst>(B.getTerminator())) {
        auto *K = dyn_cast<ConstantInt>(Rt->getReturnValue());
        if (!K || !K->isZero()) staticModel = true;
      }
  }
  bool touches(Walk &W, const Instruction *I, const WState &S, const Value *t) {
    const Value *p = nullptr;
    if (auto *L = dyn_cast<LoadInst>(I)) p = L->getPointerOperand();
    else if (auto *St = dyn_cast<StoreInst>(I)) p = St->getPointerOperand();
    else if (auto *M = dyn_cast<MemIntrinsic>(I)) p = M->getDest();
    return p && W.canon(S, strip(decompose(p).root)) == t;
  }
  const Value *val(Walk &W, const WState &S, const Value *v) { return W.canon(S, strip(W.canon(S, v))); }

  enum { Held, Released, Moved };
  std::vector<std::string> fields;
  std::set<std::string> directory;
  std::set<const Instruction *> twoOwners;
  long sites = 0, leaks = 0;
  void acquisition(Function &F, CallBase *A, const Acq &q, bool report) {
    Walk W(P, F, MR);
    const Value *recognised = tok();
    const Value *t = q.out < 0 ? (const Value *)A : tok();
    std::string who = srcFunc(A) + ":" + (calleeName(A).empty() ? [&] { std::string s; callees(P, A, nullptr, &s); return s; }() : calleeName(A));
    std::set<std::string> done;
    auto add = [&](const char *rule, const Instruction *at, const std::string &msg, const WState &S) {
      if (!report || !done.insert(rule).second) return;
      auto p = Walk::path(S);
      p.push_back("at " + loc(at));
      leaks++;
      R.add(F.getName().str() + ":" + who + ":" + rule, loc(A), msg, p);
    };
    auto moved = [&](const Value *ptr) {
      Addr a = decompose(ptr);
      std::string f = ModRef::fieldKey(ptr);
      if (!f.empty()) owner[f].insert(q.kind);
      else if (auto *Ar = dyn_cast<Argument>(a.root); Ar && a.steps.empty()) {
        auto &v = acq[&F];
        bool has = false;
        for (auto &x : v) has |= x.out == (int)Ar->getArgNo();
        if (!has && !prim(&F)) v.push_back({q.kind, (int)Ar->getArgNo()});
      }
    };
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) {
      int &st = S.ts[0];
      if (I == A) {
        if (st == Held) add("again", I, "the " + q.kind + " acquired here is overwritten by the next one while still held", S);
        return false;
      }
      if (auto *St = dyn_cast<StoreInst>(I)) {
        if (val(W, S, St->getValueOperand()) == t) {
          const Value *root = W.canon(S, strip(decompose(St->getPointerOperand()).root));
          if (isa<AllocaInst>(root)) return true;
          if (st == Held) {
            std::string f = ModRef::fieldKey(St->getPointerOperand());
            if (f.empty()) { st = Moved; moved(St->getPointerOperand()); return false; }
            S.ts[1] = intern(fields, f);
            st = Moved;
            return true;
          }
          // also handed to the caller: the field is only a directory entry
          if (Addr a = decompose(St->getPointerOperand()); st == Moved && S.ts[1] >= 0 && isa<Argument>(a.root) && a.steps.empty()) {
            directory.insert(fields[S.ts[1]]);
            moved(St->getPointerOperand());
            S.ts[1] = -1;
            return false;
          }
          return true;
        }
        if (st == Released && touches(W, I, S, t)) { add("use", I, "the " + q.kind + " acquired here is used after its release", S); return false; }
        return true;
      }
      if (st == Released && touches(W, I, S, t)) { add("use", I, "the " + q.kind + " acquired here is used after its release", S); return false; }
      auto *Cl = dyn_cast<CallBase>(I);
      if (!Cl || isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl)) return true;
      for (unsigned i = 0; i < Cl->arg_size(); i++) {
        if (val(W, S, Cl->getArgOperand(i)) != t) continue;
        if (releases(Cl, i)) {
          if (st == Released) { add("twice", I, "the " + q.kind + " acquired here is released twice", S); return false; }
          if (st == Moved) { add("owned", I, "the " + q.kind + " acquired here is released although its new owner will release it too", S); return false; }
          st = Released;
          return true;
        }
        if (st == Released) { add("use", I, "the " + q.kind + " acquired here is used after its release", S); return false; }
        if (st == Held && isCheck(Cl) && i == 1) {
          // recognised: the parser owns it now
          std::string c = W.cell(S, Cl->getArgOperand(2));
          WState B = S, D = S;
          if (W.refine(S, Cl, CR(APInt::getZero(Walk::bits(Cl))))) {
            S.mem[c] = recognised;
            st = Moved;
          }
          if (W.refine(B, Cl, CR(APInt::getZero(Walk::bits(Cl))))) {
            B.mem[c] = ConstantPointerNull::get(PointerType::get(P.M->getContext(), 0));
            extra.push_back(B);
          }
          if (W.refine(D, Cl, CR(APInt(Walk::bits(Cl), 1), APInt::getZero(Walk::bits(Cl))))) extra.push_back(D);
          return true;
        }
        if (st == Held && captures(Cl, i)) {
          for (auto *G : callees(P, Cl)) {
            for (Instruction &J : instructions(const_cast<Function &>(*G)))
              if (auto *St = dyn_cast<StoreInst>(&J))
                if (auto *Ar = dyn_cast<Argument>(strip(St->getValueOperand())); Ar && Ar->getArgNo() == i) {
                  std::string f = ModRef::fieldKey(St->getPointerOperand());
                  if (!f.empty()) owner[f].insert(q.kind);
                }
          }
          bool res = Cl->getType()->isIntegerTy() && Walk::bits(Cl) == 64;
          WState B = S;
          B.ts[0] = Moved;
          if (!res || W.refine(B, Cl, CR(APInt::getZero(64)))) extra.push_back(B);
          if (!res) return false;
          return W.refine(S, Cl, CR(APInt(64, 1), APInt::getZero(64))); // failed: still ours
        }
      }
      return true;
    };
    W.ret = [&](const ReturnInst *RI, WState &S) {
      if (S.ts[0] == Moved && S.ts[1] >= 0) owner[fields[S.ts[1]]].insert(q.kind);
      if (S.ts[0] != Held) return;
      if (RI->getReturnValue() && val(W, S, RI->getReturnValue()) == t) {
        auto &v = acq[&F];
        bool has = false;
        for (auto &x : v) has |= x.out == -1;
        if (!has && !prim(&F)) v.push_back({q.kind, -1});
        return;
      }
      add("leak", RI, "the " + q.kind + " acquired here is neither released nor handed over when " + F.getName().str() + " returns", S);
    };
    model(W);
    WState S;
    S.ts = {Held, -1};
    if (q.out < 0) S.fact.insert_or_assign(A, CR(APInt(64, 1), APInt::getZero(64)));
    else {
      if (A->getType()->isIntegerTy()) S.fact.insert_or_assign(A, CR(APInt::getZero(Walk::bits(A))));
      const Value *o = A->getArgOperand(q.out);
      Addr a = decompose(o);
      if (!isa<AllocaInst>(a.root)) { moved(o); return; } // written straight into its owner
      S.mem[W.cell(S, o)] = t;
    }
    if (report) sites++, R.note("acquisitions", q.kind + " at " + loc(A));
    W.runAfter(A, S);
    if (getenv("SV_DBG")) errs() << "acq " << loc(A) << " in " << F.getName() << " visited " << W.visited << "\n";
  }

  // every caller releases what it passes in this position
  bool callersRelease(const Function *F, unsigned arg) {
    unsigned n = 0;
    for (Function &G : *P.M)
      for (Instruction &I : instructions(G)) {
        auto *C = dyn_cast<CallBase>(&I);
        if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) continue;
        auto cs = callees(P, C);
        if (std::find(cs.begin(), cs.end(), F) == cs.end()) continue;
        n++;
        auto *Ar = dyn_cast<Argument>(strip(C->getArgOperand(arg)));
        if (!Ar || !rel[&G].count(Ar->getArgNo())) return false;
      }
    return n > 0;
  }
  // after a release: no second release, no use, no dangling field left behind
  long rels = 0;
  void release(Function &F, CallBase *Rc, unsigned arg) {
    Walk W(P, F, MR);
    rels++;
    R.note("releases", loc(Rc));
    std::vector<const Value *> vals;
    std::vector<std::string> cells;
    std::set<std::string> done;
    std::string who = srcFunc(Rc) + ":" + [&] { std::string s; auto cs = callees(P, Rc, nullptr, &s); return s.empty() && !cs.empty() ? cs[0]->getName().str() : s; }();
    auto add = [&](const char *rule, const Instruction *at, const std::string &msg, const WState &S) {
      if (!done.insert(rule).second) return;
      auto p = Walk::path(S);
      p.push_back("at " + loc(at));
      leaks++;
      R.add(F.getName().str() + ":" + who + ":" + rule, loc(Rc), msg, p);
    };
    // ts: {released value or -1, cell or -1, container, values released so far...}
    std::function<bool(const Value *, const Value *)> sameRoot = [&](const Value *a, const Value *root) {
      if (a == root) return true;
      auto x = fieldsOf(a), y = fieldsOf(root);
      for (auto &k : x) if (y.count(k)) return true;
      auto *L = dyn_cast<LoadInst>(root); // the container of the container
      return L && sameRoot(a, strip(decompose(L->getPointerOperand()).root));
    };
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) {
      if (S.ts[0] >= 0) {
        const Value *v = vals[S.ts[0]];
        if (I == v) return false; // next round of a loop: the other states cover it
        if (touches(W, I, S, v)) { add("use", I, "the object released here is used afterwards", S); return false; }
      }
      auto *Cl = dyn_cast<CallBase>(I);
      if (!Cl || isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl)) return true;
      for (unsigned i = 0; i < Cl->arg_size(); i++) {
        if (!Cl->getArgOperand(i)->getType()->isPointerTy() && !Cl->getArgOperand(i)->getType()->isIntegerTy(64)) continue;
        const Value *a = val(W, S, Cl->getArgOperand(i));
        bool rl = releases(Cl, i);
        if (S.ts[0] >= 0 && a == vals[S.ts[0]]) { add(rl ? "twice" : "use", I, rl ? "the object released here is released again" : "the object released here is passed on afterwards", S); return false; }
        if (!rl || isa<Constant>(a)) continue;
        if (S.ts[0] >= 0 && S.ts[1] >= 0 && sameRoot(a, vals[S.ts[2]])) S.ts[1] = -1;
        if (S.ts[0] < 0 && Cl != Rc) { int k = intern(vals, a); if (std::find(S.ts.begin() + 3, S.ts.end(), k) == S.ts.end()) { S.ts.push_back(k); std::sort(S.ts.begin() + 3, S.ts.end()); } }
      }
      if (I == Rc && S.ts[0] < 0) {
        const Value *v = val(W, S, Rc->getArgOperand(arg));
        if (isa<Constant>(v)) return true;
        WState T = S;
        T.ts[0] = intern(vals, v);
        for (auto &kv : S.mem)
          if (kv.first.find('#') != std::string::npos && W.canon(S, strip(W.canon(S, kv.second))) == v) {
            const Value *root = (const Value *)std::stoull(kv.first.substr(0, kv.first.find('|')));
            if (isa<AllocaInst>(root)) continue;
            bool gone = false;
            for (size_t k = 3; k < S.ts.size(); k++) gone |= sameRoot(vals[S.ts[k]], root);
            if (gone) continue;
            T.ts[1] = intern(cells, kv.first);
            T.ts[2] = intern(vals, root);
          }
        extra.push_back(T);
      }
      return true;
    };
    W.ret = [&](const ReturnInst *RI, WState &S) {
      if (S.ts[0] < 0 || S.ts[1] < 0) return;
      auto it = S.mem.find(cells[S.ts[1]]);
      if (it == S.mem.end() || W.canon(S, strip(W.canon(S, it->second))) != vals[S.ts[0]]) return;
      if (RI->getReturnValue() && RI->getReturnValue()->getType()->isIntegerTy() && W.nonZero(S, RI->getReturnValue())) return;
      if (auto *Ar = dyn_cast<Argument>(vals[S.ts[2]]); Ar && callersRelease(&F, Ar->getArgNo())) return;
      std::string f = cells[S.ts[1]];
      add("dangling", RI, "the field " + f.substr(f.rfind('|') + 1) + " still refers to the object released here when " + F.getName().str() + " returns", S);
    };
    model(W);
    WState S0;
    S0.ts = {-1, -1, -1};
    W.run(S0);
    if (getenv("SV_DBG")) errs() << "rel " << loc(Rc) << " in " << F.getName() << " visited " << W.visited << "\n";
  }

  // a closing function releases what it owns on every path
  long must = 0;
  void mustParam(const Function *F, unsigned arg, const std::string &why) {
    Walk W(P, *F, MR);
    bool bad = false;
    must++;
    R.note("must_release", F->getName().str() + " its " + why);
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
      auto *Cl = dyn_cast<CallBase>(I);
      if (!Cl || isDbg(Cl) || isField0(Cl)) return true;
      for (unsigned i = 0; i < Cl->arg_size(); i++)
        if (val(W, S, Cl->getArgOperand(i)) == F->getArg(arg) && releases(Cl, i)) S.ts[0] = 1;
      return true;
    };
    W.ret = [&](const ReturnInst *RI, WState &S) {
      if (bad || S.ts[0]) return;
      if (RI->getReturnValue() && RI->getReturnValue()->getType()->isIntegerTy() && W.nonZero(S, RI->getReturnValue())) return;
      bad = true;
      auto p = Walk::path(S);
      p.push_back("returns at " + loc(RI));
      leaks++;
      R.add(F->getName().str() + ":unreleased", locF(F), F->getName().str() + " can succeed without releasing its " + why, p);
    };
    model(W);
    WState S;
    S.ts = {0};
    S.fact.insert_or_assign(F->getArg(arg), CR(APInt(64, 1), APInt::getZero(64)));
    W.run(S);
  }
  // field loaded and non-null, yet not released on a successful path; or never even looked at
  void mustField(const Function *F, const std::string &field, const CallBase *Rc) {
    Walk W(P, *F, MR);
    bool bad = false;
    must++;
    R.note("must_release", F->getName().str() + " field " + field);
    std::vector<const Value *> vals;
    // ts: {value index pending or -1, seen}
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
      if (auto *L = dyn_cast<LoadInst>(I); L && L->getType()->isPointerTy() && ModRef::fieldKey(L->getPointerOperand()) == field) {
        if (S.ts[1] == 2) return true;
        const Value *v = W.canon(S, L);
        S.ts[0] = intern(vals, v);
        S.ts[1] = 1;
        return W.refine(S, L, CR(APInt(64, 1), APInt::getZero(64)));
      }
      auto *Cl = dyn_cast<CallBase>(I);
      if (!Cl || isDbg(Cl) || isField0(Cl)) return true;
      for (unsigned i = 0; i < Cl->arg_size(); i++)
        if (S.ts[0] >= 0 && val(W, S, Cl->getArgOperand(i)) == vals[S.ts[0]] && releases(Cl, i)) S.ts = {-1, 2};
      if (S.ts[0] >= 0 && callReleasesField(Cl, field)) S.ts = {-1, 2};
      return true;
    };
    W.ret = [&](const ReturnInst *RI, WState &S) {
      if (bad || S.ts[0] < 0) return;
      if (RI->getReturnValue() && RI->getReturnValue()->getType()->isIntegerTy() && W.nonZero(S, RI->getReturnValue())) return;
      bad = true;
      auto p = Walk::path(S);
      p.push_back("returns at " + loc(RI));
      leaks++;
      R.add(F->getName().str() + ":unreleased:" + field, locF(F), F->getName().str() + " can succeed without releasing what " + field + " refers to", p);
    };
    model(W);
    WState S;
    if (getenv("SV_DBG")) errs() << "must " << F->getName() << " " << field << "\n";
    S.ts = {-1, 0};
    W.run(S);
  }

  // a closing function calls each helper that releases part of its argument, on every successful path
  void mustCalls(const Function *F) {
    std::set<const Function *> hs;
    for (const Instruction &I : instructions(*F)) {
      auto *C = dyn_cast<CallBase>(&I);
      if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) continue;
      auto *G = C->getCalledFunction();
      if (!G || prim(G) || relField[G].empty() || acq.count(G)) continue;
      for (unsigned i = 0; i < C->arg_size(); i++)
        if (isa<Argument>(strip(C->getArgOperand(i)))) { if (!closesField(C, i)) hs.insert(G); break; }
    }
    for (auto *G : hs) {
      must++;
      R.note("must_call", F->getName().str() + " calls " + G->getName().str());
      Walk W(P, *F, MR);
      bool bad = false;
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
        auto *C = dyn_cast<CallBase>(I);
        if (C && C->getCalledFunction() == G) S.ts[0] = 1;
        if (C && C->getCalledFunction() && hs.count(C->getCalledFunction())) S.ts[1] = 1;
        return true;
      };
      W.ret = [&](const ReturnInst *RI, WState &S) {
        if (bad || S.ts[0]) return;
        // refused before anything was given up
        if (!S.ts[1] && RI->getReturnValue() && RI->getReturnValue()->getType()->isIntegerTy() && W.nonZero(S, RI->getReturnValue())) return;
        bad = true;
        auto p = Walk::path(S);
        p.push_back("returns at " + loc(RI));
        leaks++;
        R.add(F->getName().str() + ":uncalled:" + G->getName().str(), locF(F), F->getName().str() + " can succeed without " + G->getName().str() + " releasing its part", p);
      };
      model(W);
      WState S;
      S.ts = {0, 0};
      for (auto &A : F->args()) if (A.getType()->isPointerTy()) S.fact.insert_or_assign(&A, CR(APInt(64, 1), APInt::getZero(64)));
      W.run(S);
    }
  }
  // the call also releases a field handed over as argument: judged by the field rule instead
  bool closesField(const CallBase *C, unsigned) {
    for (unsigned i = 0; i < C->arg_size(); i++) {
      if (!fieldsOf(C->getArgOperand(i)).empty() && releases(C, i)) return true;
      if (!isa<Argument>(strip(C->getArgOperand(i))) && isa<Instruction>(strip(C->getArgOperand(i))) && C->getArgOperand(i)->getType()->isPointerTy()) return true;
    }
    return false;
  }
  // objects that count their users
  long counted = 0;
  std::set<std::string> shared; // creators of counted objects, and the fields that refer to them
  static bool isCount(const std::string &f, Program &P, const Value *ptr) {
    static std::map<std::string, bool> memo;
    if (f.empty()) return false;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    return memo[f] = decompose(ptr).field(P).find("refCount") != std::string::npos;
  }
  // the parameter is an object that counts its users, and this function gives one of them up
  std::map<std::pair<const Function *, unsigned>, int> crMemo;
  bool countAccess(const Function &F, unsigned i, bool storeOnly = false) {
    for (const Instruction &I : instructions(F)) {
      const Value *p = nullptr;
      if (auto *S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand();
      else if (auto *L = dyn_cast<LoadInst>(&I); L && !storeOnly) p = L->getPointerOperand();
      if (p && decompose(p).root == F.getArg(i) && isCount(ModRef::fieldKey(p), P, p)) return true;
    }
    return false;
  }
  bool isCounted(const Function &F, unsigned i) { // by the structure it is used as
    for (const Instruction &I : instructions(F)) {
      const Value *p = nullptr;
      if (auto *S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand();
      else if (auto *L = dyn_cast<LoadInst>(&I)) p = L->getPointerOperand();
      if (!p) continue;
      Addr a = decompose(p);
      if (a.root == F.getArg(i) && !a.steps.empty() && a.steps[0].k == Step::Field && countTypes.count(a.steps[0].st)) return true;
    }
    return false;
  }
  std::set<std::string> countTypes;
  bool countedRelease(const Function &F, unsigned i) {
    auto k = std::make_pair(&F, i);
    if (auto it = crMemo.find(k); it != crMemo.end()) return it->second;
    crMemo[k] = 0;
    if (!rel.count(&F) || !rel[&F].count(i) || prim(&F)) return false;
    if (countAccess(F, i)) return crMemo[k] = 1;
    // frees the object itself: the callers must have done the counting
    bool direct = false;
    for (const Instruction &I : instructions(F)) {
      auto *Cl = dyn_cast<CallBase>(&I);
      if (!Cl || isDbg(Cl) || isField0(Cl)) continue;
      for (unsigned j = 0; j < Cl->arg_size(); j++)
        if (strip(Cl->getArgOperand(j)) == F.getArg(i) && releases(Cl, j)) {
          bool cnt = false;
          for (auto *G : callees(P, Cl)) cnt |= countedRelease(*G, j);
          direct |= !cnt;
        }
    }
    if (!direct || !isCounted(F, i)) return false;
    unsigned n = 0;
    bool all = true;
    for (Function &G : *P.M)
      for (Instruction &I : instructions(G)) {
        auto *Cl = dyn_cast<CallBase>(&I);
        if (!Cl || isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl)) continue;
        auto cs = callees(P, Cl);
        if (std::find(cs.begin(), cs.end(), &F) == cs.end()) continue;
        n++;
        auto *Ar = dyn_cast<Argument>(strip(Cl->getArgOperand(i)));
        all &= Ar && countAccess(G, Ar->getArgNo());
      }
    return crMemo[k] = !(n && all);
  }
  void refcounts() {
    for (Function &F : *P.M)
      for (Instruction &I : instructions(F))
        if (auto *S = dyn_cast<StoreInst>(&I))
          if (auto k = ModRef::fieldKey(S->getPointerOperand()); isCount(k, P, S->getPointerOperand())) countTypes.insert(k.substr(0, k.find('#')));
    for (Function &F : *P.M) {
      if (F.isDeclaration()) continue;
      for (auto &A : F.args()) {
        if (!rel[&F].count(A.getArgNo())) continue;
        if (!countedRelease(F, A.getArgNo())) continue;
        counted++;
        R.note("counted_release", F.getName().str() + " at " + locF(&F));
        Walk W(P, F, MR);
        std::set<std::string> done;
        auto add = [&](const char *k, const Instruction *at, const char *msg, const WState &S) {
          if (!done.insert(k).second) return;
          auto p = Walk::path(S);
          p.push_back("at " + loc(at));
          leaks++;
          R.add(F.getName().str() + ":count:" + k, loc(at), F.getName().str() + msg, p);
        };
        std::vector<const Value *> vals;
        // ts: {released, index of the value last stored into the count, or -1}
        W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
          // the caller holds a reference
          if (auto *L = dyn_cast<LoadInst>(I); L && S.ts[1] < 0 && W.canon(S, decompose(L->getPointerOperand()).root) == &A && isCount(ModRef::fieldKey(L->getPointerOperand()), P, L->getPointerOperand()))
            return W.refine(S, L, CR(APInt(Walk::bits(L), 1), APInt::getZero(Walk::bits(L))));
          if (auto *St = dyn_cast<StoreInst>(I); St && W.canon(S, decompose(St->getPointerOperand()).root) == &A && isCount(ModRef::fieldKey(St->getPointerOperand()), P, St->getPointerOperand())) {
            const Value *v = W.canon(S, St->getValueOperand());
            auto *B = dyn_cast<BinaryOperator>(v);
            while (!B && isa<TruncInst>(v)) { v = cast<TruncInst>(v)->getOperand(0); B = dyn_cast<BinaryOperator>(v); }
            auto *K = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
            bool one = K && ((B->getOpcode() == Instruction::Add && K->isMinusOne()) || (B->getOpcode() == Instruction::Sub && K->isOne()));
            if (!one) add("step", I, " changes the number of users by something other than one", S);
            if (S.ts[1] >= 0) add("again", I, " gives up more than one reference in one call", S);
            S.ts[1] = intern(vals, W.canon(S, St->getValueOperand()));
          }
          auto *Cl = dyn_cast<CallBase>(I);
          if (!Cl || isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl)) return true;
          for (unsigned i = 0; i < Cl->arg_size(); i++)
            if (val(W, S, Cl->getArgOperand(i)) == &A && releases(Cl, i)) {
              S.ts[0] = 1;
              if (S.ts[1] < 0) add("early", I, " can release the object without giving up a reference", S);
              else if (!W.isZero(S, vals[S.ts[1]])) add("early", I, " can release the object while it still has users", S);
            }
          return true;
        };
        W.ret = [&](const ReturnInst *RI, WState &S) {
          if (S.ts[0]) return;
          if (S.ts[1] < 0) { add("kept", RI, " can return without giving up the caller's reference", S); return; }
          if (!W.nonZero(S, vals[S.ts[1]])) add("late", RI, " can give up the last reference without releasing the object", S);
        };
        model(W);
        WState S;
        S.ts = {0, -1};
        S.fact.insert_or_assign(&A, CR(APInt(64, 1), APInt::getZero(64)));
        W.run(S);
      }
    }
    // every new counted object starts with one user before anybody else can see it
    std::set<std::string> countFields;
    for (Function &F : *P.M)
      for (Instruction &I : instructions(F))
        if (auto *S = dyn_cast<StoreInst>(&I))
          if (auto k = ModRef::fieldKey(S->getPointerOperand()); isCount(k, P, S->getPointerOperand())) countFields.insert(k);
    for (auto &k : countFields) R.note("count_fields", k);
    for (Function &F : *P.M)
      for (Instruction &I : instructions(F)) {
        auto *A = dyn_cast<CallBase>(&I);
        if (!A || calleeName(A) != "EAS_HWMalloc") continue;
        std::string kind; // structure the block is used as
        std::set<const Value *> al{A};
        for (bool more = true; more;) {
          more = false;
          for (Instruction &J : instructions(F))
            if (auto *Ph = dyn_cast<PHINode>(&J); Ph && !al.count(Ph))
              for (auto &o : Ph->incoming_values()) if (al.count(strip(o))) { al.insert(Ph); more = true; break; }
        }
        for (Instruction &J : instructions(F)) {
          const Value *p = nullptr;
          if (auto *S = dyn_cast<StoreInst>(&J)) p = S->getPointerOperand();
          else if (auto *L = dyn_cast<LoadInst>(&J)) p = L->getPointerOperand();
          if (!p) continue;
          Addr a = decompose(p);
          bool hit = al.count(strip(a.root));
          if (auto *L = dyn_cast<LoadInst>(a.root); L && !hit) { // through the variable the block was put into
            for (auto *U : A->users())
              if (auto *S = dyn_cast<StoreInst>(U); S && S->getValueOperand() == A && decompose(S->getPointerOperand()).str(P) == decompose(L->getPointerOperand()).str(P)) hit = true;
          }
          if (hit && !a.steps.empty() && a.steps[0].k == Step::Field) kind = a.steps[0].st;
        }
        std::string cf;
        for (auto &k : countFields) if (k.substr(0, k.find('#')) == kind) cf = k;
        if (cf.empty()) continue;
        counted++;
        shared.insert(F.getName().str());
        R.note("counted_objects", cf + " created at " + loc(A));
        Walk W(P, F, MR);
        bool bad = false;
        W.inst = [&](const Instruction *J, WState &S, std::vector<WState> &) {
          if (auto *St = dyn_cast<StoreInst>(J); St && ModRef::fieldKey(St->getPointerOperand()) == cf) {
            auto *K = dyn_cast<ConstantInt>(St->getValueOperand());
            S.ts[0] = K && K->isOne();
          }
          auto *Cl = dyn_cast<CallBase>(J);
          if (!Cl || isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl)) return true;
          for (unsigned i = 0; i < Cl->arg_size(); i++)
            if (!S.ts[0] && !bad && releases(Cl, i) && !prim(Cl->getCalledFunction() ? Cl->getCalledFunction() : &F) && calleeName(Cl) != "free") {
              const Value *a = val(W, S, Cl->getArgOperand(i));
              if (a != A) continue;
              bad = true;
              auto p = Walk::path(S);
              p.push_back("at " + loc(Cl));
              leaks++;
              R.add(F.getName().str() + ":count:start", loc(A), "the new object is given up before its number of users has been set to one", p);
            }
          return true;
        };
        W.ret = [&](const ReturnInst *RI, WState &S) {
          if (bad || S.ts[0]) return;
          if (RI->getReturnValue() && RI->getReturnValue()->getType()->isIntegerTy() && W.nonZero(S, RI->getReturnValue())) return;
          bad = true;
          auto p = Walk::path(S);
          p.push_back("returns at " + loc(RI));
          leaks++;
          R.add(F.getName().str() + ":count:start", loc(A), "the new object is handed out without its number of users having been set to one", p);
        };
        model(W);
        WState S;
        S.ts = {0};
        S.fact.insert_or_assign(A, CR(APInt(64, 1), APInt::getZero(64)));
        W.runAfter(A, S);
      }
    R.stats["counted"] = counted;
  }

  // a reference held in a field is given up before (or right after) the field is overwritten
  void overwrites() {
    std::set<std::string> cf;
    for (auto &kv : owner)
      for (auto *Rc : relOf[kv.first])
        for (unsigned i = 0; i < Rc->arg_size(); i++)
          for (auto *G : callees(P, Rc)) {
            auto fs = fieldsOf(Rc->getArgOperand(i));
            if (fs.count(kv.first) && countedRelease(*G, i)) cf.insert(kv.first);
          }
    for (auto &f : cf) R.note("reference_fields", f), shared.insert(f);
    // function, parameter -> fields of it that it overwrites without looking after the old content
    std::map<std::pair<const Function *, unsigned>, std::set<std::string>> leaves;
    std::set<std::pair<const Instruction *, std::string>> done;
    for (bool ch = true; ch;) {
      ch = false;
      for (Function &F : *P.M)
        for (Instruction &I : instructions(F)) {
          std::vector<std::pair<std::string, const Value *>> todo; // field, object
          if (auto *St = dyn_cast<StoreInst>(&I)) {
            if (auto k = ModRef::fieldKey(St->getPointerOperand()); cf.count(k)) todo.push_back({k, decompose(St->getPointerOperand()).root});
          } else if (auto *Cl = dyn_cast<CallBase>(&I); Cl && !isDbg(Cl) && !isField0(Cl) && !isa<IntrinsicInst>(Cl))
            for (auto *G : callees(P, Cl))
              for (unsigned i = 0; i < Cl->arg_size() && i < G->arg_size(); i++)
                if (auto it = leaves.find({G, i}); it != leaves.end()) for (auto &f : it->second) todo.push_back({f, Cl->getArgOperand(i)});
          for (auto &t : todo) {
            if (!done.insert({&I, t.first}).second) continue;
            std::set<const Value *> seen;
            if (isa<AllocaInst>(strip(t.second))) continue;
            int r = overwrite(F, &I, t.first, t.second);
            if (r < 0) continue;
            if (leaves[{&F, (unsigned)r}].insert(t.first).second) ch = true;
          }
        }
    }
    for (auto &n : C.roots)
      if (auto *F = P.M->getFunction(n))
        for (auto &A : F->args())
          for (auto &f : leaves[{F, A.getArgNo()}]) leaks++, R.add(F->getName().str() + ":count:replaced:" + f, locF(F), F->getName().str() + " overwrites " + f + " without giving up the reference it held");
  }
  // -1: settled here; otherwise the parameter whose field the callers must settle
  long overw = 0;
  int overwrite(const Function &F, const Instruction *At, const std::string &f, const Value *obj) {
    overw++;
    R.note("reference_overwrites", f + " at " + loc(At));
    Walk W(P, F, MR);
    int out = -1;
    bool bad = false;
    std::vector<const Value *> vals;
    auto report = [&](const Instruction *at, WState &S) {
      if (bad) return;
      bad = true;
      auto p = Walk::path(S);
      p.push_back("at " + loc(at));
      leaks++;
      R.add(F.getName().str() + ":count:replaced:" + f, loc(At), F.getName().str() + " overwrites " + f + " without giving up the reference it held", p);
    };
    // ts: {pending, content of the field as last read, released...}
    std::function<std::string(WState &, const Value *)> where = [&](WState &S, const Value *v) -> std::string {
      v = val(W, S, v);
      if (auto *L = dyn_cast<LoadInst>(v)) {
        Addr a = decompose(L->getPointerOperand());
        std::string s = where(S, a.root);
        for (auto &st : a.steps) s += st.k == Step::Field ? "|" + st.st + "#" + std::to_string(st.idx) : isa<ConstantInt>(st.var) ? "[" + std::to_string(cast<ConstantInt>(st.var)->getSExtValue()) + "]" : "[" + std::to_string((uintptr_t)W.canon(S, st.var)) + "]";
        return s;
      }
      return std::to_string((uintptr_t)v);
    };
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) {
      if (auto *L = dyn_cast<LoadInst>(I); L && ModRef::fieldKey(L->getPointerOperand()) == f)
        if (where(S, decompose(L->getPointerOperand()).root) == where(S, obj)) S.ts[1] = intern(vals, val(W, S, L));
      auto *Cl = dyn_cast<CallBase>(I);
      if (Cl && !isDbg(Cl) && !isField0(Cl) && !isa<IntrinsicInst>(Cl))
        for (unsigned i = 0; i < Cl->arg_size(); i++) {
          if (!releases(Cl, i)) continue;
          int k = intern(vals, val(W, S, Cl->getArgOperand(i)));
          if (S.ts[0] == k) S.ts[0] = -1;
          if (std::find(S.ts.begin() + 2, S.ts.end(), k) == S.ts.end()) S.ts.push_back(k), std::sort(S.ts.begin() + 2, S.ts.end());
        }
      if (I != At) return true;
      const Value *o = val(W, S, obj);
      if (isa<CallBase>(o) && (calleeName(cast<CallBase>(o)) == "EAS_HWMalloc" || calleeName(cast<CallBase>(o)) == "EAS_CMEnumData")) return true; // a new object
      WState B = S;
      if (Cl && Cl->getType()->isIntegerTy(64)) { // the callee replaces it when it succeeds
        if (!W.refine(S, Cl, CR(APInt::getZero(64)))) return true;
        if (W.refine(B, Cl, CR(APInt(64, 1), APInt::getZero(64)))) extra.push_back(B);
      }
      if (S.ts[1] < 0) {
        if (auto *A = dyn_cast<Argument>(o)) { if (out < 0) out = A->getArgNo(); }
        else report(I, S);
        return false;
      }
      int k = S.ts[1];
      S.ts[1] = -1;
      if (W.isZero(S, vals[k]) || std::find(S.ts.begin() + 2, S.ts.end(), k) != S.ts.end()) return true;
      S.ts[0] = k;
      return true;
    };
    W.ret = [&](const ReturnInst *RI, WState &S) {
      if (S.ts[0] < 0 || W.isZero(S, vals[S.ts[0]])) return;
      report(RI, S);
    };
    model(W);
    WState S0;
    S0.ts = {-1, -1};
    W.run(S0);
    return out;
  }

  void run() {
    summaries();
    findModel();
    relFields();
    // acquiring functions: fixpoint, quietly
    size_t n = 0;
    for (;;) {
      for (Function &F : *P.M) {
        if (F.isDeclaration() || prim(&F)) continue;
        for (Instruction &I : instructions(F))
          if (auto *A = dyn_cast<CallBase>(&I); A && !isDbg(A) && !isField0(A))
            for (auto *G : callees(P, A))
              if (acq.count(G)) { auto v = acq[G]; for (auto &q : v) acquisition(F, A, q, false); break; }
      }
      size_t m = 0;
      for (auto &kv : acq) m += kv.second.size();
      if (m == n) break;
      n = m;
    }
    for (auto &kv : acq) for (auto &q : kv.second) R.note("acquiring_functions", kv.first->getName().str() + ": " + q.kind + (q.out < 0 ? "" : " through parameter " + std::to_string(q.out)));
    for (auto &kv : rel) for (auto i : kv.second) R.note("releasing_functions", kv.first->getName().str() + ": parameter " + std::to_string(i));
    for (auto &kv : cap) for (auto i : kv.second) R.note("capturing_functions", kv.first->getName().str() + ": parameter " + std::to_string(i));
    for (Function &F : *P.M) {
      if (F.isDeclaration() || prim(&F)) continue;
      for (Instruction &I : instructions(F))
        if (auto *A = dyn_cast<CallBase>(&I); A && !isDbg(A) && !isField0(A)) {
          for (auto *G : callees(P, A))
            if (acq.count(G)) { auto v = acq[G]; for (auto &q : v) acquisition(F, A, q, true); break; }
          for (unsigned i = 0; i < A->arg_size(); i++)
            if (releases(A, i)) {
              release(F, A, i);
              for (auto &f : fieldsOf(A->getArgOperand(i))) relOf[f].push_back(A);
            }
        }
    }
    // every owning field has its release, reachable from the closing calls
    std::vector<const Function *> cl;
    for (auto n : {"EAS_CloseFile", "EAS_CloseMIDIStream", "EAS_Shutdown"}) if (auto *F = P.M->getFunction(n)) cl.push_back(F);
    auto reach = cg.reach(cl);
    // ownership passed from field to field, or shared by counting
    for (bool ch = true; ch;) {
      ch = false;
      for (Function &F : *P.M)
        for (Instruction &I : instructions(F)) {
          auto *St = dyn_cast<StoreInst>(&I);
          if (!St) continue;
          std::string to = ModRef::fieldKey(St->getPointerOperand());
          if (to.empty() || owner.count(to) || isa<AllocaInst>(decompose(St->getPointerOperand()).root)) continue;
          for (auto &k : fieldsOf(St->getValueOperand())) {
            if (!owner.count(k) || directory.count(k)) continue;
            bool moves = false;
            for (Instruction &J : instructions(F)) {
              if (auto *N = dyn_cast<StoreInst>(&J); N && isa<ConstantPointerNull>(N->getValueOperand()) && ModRef::fieldKey(N->getPointerOperand()) == k) moves = true;
              if (auto *Cl = dyn_cast<CallBase>(&J); Cl && !isDbg(Cl) && !isField0(Cl) && !isa<IntrinsicInst>(Cl))
                for (auto *G : callees(P, Cl))
                  for (unsigned i : addref[G]) if (i < Cl->arg_size()) {
                    auto fs = fieldsOf(Cl->getArgOperand(i));
                    moves |= fs.count(k) || fs.count(to);
                  }
            }
            if (moves) { owner[to] = owner[k]; ch = true; break; }
            if (!relOf[to].empty() && twoOwners.insert(&I).second) {
              leaks++;
              R.add(F.getName().str() + ":count:shared:" + to, loc(&I), to + " now refers to an object owned by " + k + " as well, and both will give it up, but its number of users is not raised");
            }
          }
        }
    }
    for (auto &d : directory) owner.erase(d), R.note("directory_fields", d);
    for (auto &kv : owner) {
      std::string ks;
      for (auto &k : kv.second) ks += (ks.empty() ? "" : ", ") + k;
      R.note("owning_fields", kv.first + ": " + ks);
      bool ok = false;
      std::set<const Function *> fs;
      for (auto *Rc : relOf[kv.first])
        if (reach.count(Rc->getFunction())) { ok = true; if (fs.insert(Rc->getFunction()).second) mustField(Rc->getFunction(), kv.first, Rc); }
      if (!ok) R.add("owner:" + kv.first, kv.first, "nothing a closing call reaches releases what " + kv.first + " refers to (" + ks + ")"), leaks++;
    }
    // what is passed to a closing call is released by it
    auto mp = [&](const Function *F, unsigned a) { if (F && !F->isDeclaration() && a < F->arg_size()) mustParam(F, a, "instance"); };
    std::set<const Function *> closers;
    for (auto &st : P.slotTargets) {
      size_t h = st.first.find('#');
      std::string f = fieldName(P, st.first.substr(0, h), atoi(st.first.c_str() + h + 1));
      if (f == "pfClose" || f == "pfShutdown")
        for (auto *T : st.second) { mp(T, 1); closers.insert(T); }
    }
    refcounts();
    overwrites();
    R.stats["reference_overwrites"] = overw;
    mp(P.M->getFunction("EAS_Shutdown"), 0);
    for (auto *F : cl) closers.insert(F);
    for (auto *F : closers) mustCalls(F);
    R.stats["acquisition_sites"] = sites;
    R.stats["release_sites"] = rels;
    R.stats["owning_fields"] = owner.size();
    R.stats["closing_obligations"] = must;
    R.stats["unreleased"] = leaks;
  }
};
} // namespace
static void anOwn(Ctx &C, Report &R) { Own(C, R).run(); }
// what concerns shared objects only
static void anCount(Ctx &C, Report &R) {
  Own o(C, R);
  o.run();
  auto v = R.viols;
  R.viols.clear();
  for (auto &x : v) {
    bool k = x.key.find(":count:") != std::string::npos;
    for (auto &n : o.shared) k |= (x.key.substr(std::min(x.key.find(':'), x.key.size())) + ":").find(":" + n + ":", 1) != std::string::npos;
    if (k) R.viols.push_back(x);
  }
}
static Reg ow1("own", anOwn, NormOpts()), ow2("refcount", anCount, NormOpts());
