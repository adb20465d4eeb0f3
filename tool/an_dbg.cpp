#include "ranges.h"
#include "report.h"
using namespace sv;
static void anTrunc(Ctx &C, Report &Rp) {
  Ranges R(C.P, C.roots);
  R.solve();
  for (auto *F : R.live)
    R.visit(*F, [&](const Instruction *I, const BState &S) {
      if (auto *T = dyn_cast<TruncInst>(I)) {
        if (!T->getType()->isIntegerTy(16)) return;
        auto r = R.at(T->getOperand(0), S);
        unsigned w = r.getBitWidth();
        bool fs = r.getSignedMin().sge(APInt(w, -32768, true)) && r.getSignedMax().sle(APInt(w, 32767));
        bool fu = r.getUnsignedMax().ule(APInt(w, 65535));
        std::string st;
        for (auto *U : T->users()) if (auto *s = dyn_cast<StoreInst>(U)) st += " store " + decompose(s->getPointerOperand()).str(C.P);
        std::string q; raw_string_ostream o(q); r.print(o);
        Rp.note("trunc", std::string(fs ? "S " : fu ? "U " : "-- ") + loc(I) + " " + q + st, 10000);
      }
    });
}
static Reg d1("dump-trunc", anTrunc, [] { NormOpts o; o.thread = false; return o; }());
static void anIr(Ctx &C, Report &Rp) {
  const char *n = getenv("FN");
  if (auto *F = C.P.M->getFunction(n ? n : "")) F->print(errs());
}
static Reg d2("dump-ir", anIr, NormOpts());
static void anHeap(Ctx &C, Report &Rp) {
  for (Function &F : *C.P.M)
    for (Instruction &I : instructions(F)) {
      const Value *p = nullptr;
      if (auto *L = dyn_cast<LoadInst>(&I)) p = L->getPointerOperand();
      else if (auto *S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand();
      if (!p) continue;
      Addr A = decompose(p);
      for (auto &st : A.steps)
        if (st.k == Step::Index && !st.arrLen && !isa<ConstantInt>(st.var)) {
          std::string q; raw_string_ostream o(q); st.var->print(o);
          std::string rt; raw_string_ostream o2(rt); A.root->print(o2);
          std::string rf; if (auto *L = dyn_cast<LoadInst>(A.root)) rf = decompose(L->getPointerOperand()).field(C.P);
          Rp.note(rf.empty() ? "other" : rf, loc(&I) + " in " + F.getName().str() + " idx " + q.substr(0, 60) + (rf.empty() ? " root " + rt.substr(0, 60) : ""), 1000);
        }
    }
}
static Reg d3("dump-heap", anHeap, NormOpts());
