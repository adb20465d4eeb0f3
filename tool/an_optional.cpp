// Optional parts: a pointer that may be absent is tested before it is used.
#include "nullarg.h"
#include "report.h"
using namespace sv;
using CR = ConstantRange;

namespace {
struct Optional {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  NullArg NA;
  Optional(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P), NA(C.P, MR) {}
  static const Value *src(Walk &W, const WState &S, const Value *p) {
    p = decompose(p).root;
    const Value *c = W.canon(S, p);
    return decompose(c).root;
  }
  struct Use { const Function *F; const Instruction *at; std::string what; std::vector<std::string> path; int arg = -1; std::vector<Step> steps; };
  const std::map<std::string, std::string> *want = nullptr;
  long callerChecks = 0;
  std::map<std::string, std::vector<Use>> bare;
  std::map<std::string, long> guarded;
  std::map<const LoadInst *, std::string> names;
  std::string field(const LoadInst *L) {
    auto it = names.find(L);
    if (it != names.end()) return it->second;
    std::string k = ModRef::fieldKey(L->getPointerOperand());
    if (!k.empty()) k = decompose(L->getPointerOperand()).field(P);
    return names[L] = k;
  }
  // every caller of u.F knows the part to be present
  void callers(const Use &u, const std::string &f, const std::string &desc, int depth = 0) {
    for (Function &F : *P.M)
      for (Instruction &I : instructions(F)) {
        auto *Cl = dyn_cast<CallBase>(&I);
        if (!Cl || Cl->getCalledFunction() != u.F) continue;
        callerChecks++;
        Walk W(P, F, MR);
        bool hit = false;
        int up = -1;
        std::vector<Step> upSteps;
        std::vector<std::string> path;
        W.inst = [&](const Instruction *J, WState &S, std::vector<WState> &) {
          if (J != Cl || hit) return true;
          Addr A = decompose(Cl->getArgOperand(u.arg));
          std::string base = W.cell(S, Cl->getArgOperand(u.arg));
          for (auto &st : u.steps)
            base += st.k == Step::Field ? "|" + st.st + "#" + std::to_string(st.idx) : "|[" + std::to_string(cast<ConstantInt>(st.var)->getSExtValue()) + "]";
          auto it = S.mem.find(base);
          if (it != S.mem.end() && W.nonZero(S, it->second)) return true;
          hit = true;
          path = Walk::path(S);
          if (auto *a = dyn_cast<Argument>(W.canon(S, A.root)); a && A.steps.empty()) up = a->getArgNo(), upSteps = u.steps;
          return true;
        };
        W.run(WState());
        if (!hit) continue;
        if (up >= 0 && depth < 4 && !C.roots.count(F.getName().str()) && !P.addrTaken.count(&F)) {
          Use v{&F, &I, u.what, path, up, upSteps};
          callers(v, f, desc, depth + 1);
          continue;
        }
        R.add(F.getName().str() + ":" + f, loc(&I), desc + " may be absent here but is " + u.what + " by " + u.F->getName().str() + " at " + loc(u.at), path);
      }
  }
  void scan() {
    for (Function &F : *P.M) {
      if (F.isDeclaration()) continue;
      Walk W(P, F, MR);
      std::set<std::pair<const Instruction *, const Value *>> done;
      auto use = [&](const Instruction *I, WState &S, const Value *p, const std::string &what) {
        const Value *c = src(W, S, p);
        auto *L = dyn_cast<LoadInst>(c);
        if (!L) return;
        std::string f = field(L);
        if (f.empty() || (want && !want->count(f))) return;
        if (W.nonZero(S, c)) { guarded[f]++; return; }
        // an effect's data and its operations come and go together (EAS_Init)
        if (f == "S_EFFECTS_MODULE.effectData") {
          std::string own = W.cell(S, L->getPointerOperand());
          for (unsigned k = 0; k < 2; k++) {
            std::string o = own.substr(0, own.rfind('#') + 1) + std::to_string(k);
            auto it = S.mem.find(o);
            if (it != S.mem.end() && fieldName(P, "S_EFFECTS_MODULE", k) == "effect" && W.nonZero(S, it->second)) { guarded[f]++; return; }
          }
        }
        if (done.insert({I, c}).second) {
          Use u{&F, I, what, Walk::path(S), -1, {}};
          Addr A = decompose(L->getPointerOperand());
          const Value *r = W.canon(S, A.root);
          if (auto *a = dyn_cast<Argument>(r)) {
            bool fixed = true;
            for (auto &st : A.steps) fixed &= st.k == Step::Field || isa<ConstantInt>(st.var);
            if (fixed) u.arg = a->getArgNo(), u.steps = A.steps;
          }
          bare[f].push_back(u);
        }
        W.refine(S, c, CR(APInt(64, 1), APInt::getZero(64)));
      };
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
        if (auto *L = dyn_cast<LoadInst>(I)) use(I, S, L->getPointerOperand(), "read through");
        else if (auto *St = dyn_cast<StoreInst>(I)) use(I, S, St->getPointerOperand(), "written through");
        else if (auto *M = dyn_cast<MemIntrinsic>(I)) use(I, S, M->getDest(), "written through");
        auto *Cl = dyn_cast<CallBase>(I);
        if (!Cl || isDbg(Cl) || isField0(Cl) || isa<IntrinsicInst>(Cl)) return true;
        if (!Cl->getCalledFunction()) use(I, S, Cl->getCalledOperand(), "called");
        for (unsigned i = 0; i < Cl->arg_size(); i++) {
          auto *a = Cl->getArgOperand(i);
          if (!a->getType()->isPointerTy() || isa<Constant>(a)) continue;
          std::string r;
          for (auto *G : callees(P, Cl)) if (r.empty() && (i < G->arg_size() || G->isDeclaration())) { r = NA.bad(G, i, 0); }
          if (!r.empty()) use(I, S, a, "passed on and " + r);
        }
        return true;
      };
      W.run(WState());
    }
  }
};
} // namespace
static void anDumpOpt(Ctx &C, Report &R) {
  Optional o(C, R);
  o.scan();
  std::set<std::string> all;
  for (auto &k : o.bare) all.insert(k.first);
  for (auto &k : o.guarded) all.insert(k.first);
  for (auto &f : all) {
    R.note("fields", f + " guarded " + std::to_string(o.guarded[f]) + " bare " + std::to_string(o.bare[f].size()));
    for (auto &u : o.bare[f]) R.note("bare " + f, u.what + " at " + loc(u.at) + " in " + u.F->getName().str());
  }
}

static void anOptional(Ctx &C, Report &R) {
  Optional o(C, R);
  Program &P = C.P;
  std::map<std::string, std::string> opt = {
      {"s_eas_stream_tag.pParserModule", "the parser of a stream (a MIDI stream has none)"},
      {"s_metadata_cb_tag.callback", "the metadata callback"},
      {"s_pcm_state_tag.pCallback", "the PCM stream callback"},
      {"S_EFFECTS_MODULE.effectData", "the effect's data"},
      {"s_smf_data_tag.nextStream", "the track with the next event"}};
  // operations some table leaves out
  for (auto *st : {"S_FILE_PARSER_INTERFACE", "S_EFFECTS_INTERFACE"}) {
    auto it = P.slotTables.find(st);
    if (it == P.slotTables.end()) { R.broken.push_back(std::string("no table of ") + st); continue; }
    for (auto *G : it->second) {
      std::function<void(const Constant *)> go = [&](const Constant *K) {
        auto *S = dyn_cast<ConstantStruct>(K);
        if (!S) { for (auto &op : K->operands()) if (auto *c = dyn_cast<Constant>(op.get())) go(c); return; }
        if (structName(S->getType()) != st) { for (auto &op : S->operands()) go(cast<Constant>(op.get())); return; }
        for (unsigned i = 0; i < S->getNumOperands(); i++)
          if (S->getOperand(i)->isNullValue() && S->getType()->getElementType(i)->isPointerTy())
            opt[std::string(st) + "." + fieldName(P, st, i, S->getType()).substr(0)] = "an operation that " + G->getName().str() + " does not provide";
      };
      if (G->hasInitializer()) go(G->getInitializer());
    }
  }
  long uses = 0, bad = 0, passed = 0;
  for (auto &k : opt) R.note("optional parts", k.first + ": " + k.second);
  o.want = &opt;
  o.scan();
  for (auto &k : opt) {
    uses += o.guarded[k.first];
    R.note("uses", k.first + ": " + std::to_string(o.guarded[k.first]) + " tested, " + std::to_string(o.bare[k.first].size()) + " not tested");
    for (auto &u : o.bare[k.first]) {
      // a function that leaves the test to its callers
      if (u.arg >= 0 && !C.roots.count(u.F->getName().str()) && !P.addrTaken.count(const_cast<Function *>(u.F))) {
        passed++;
        o.callers(u, k.first, k.second);
        continue;
      }
      bad++;
      R.add(u.F->getName().str() + ":" + k.first, loc(u.at), k.second + " may be absent here but is " + u.what, u.path);
    }
  }
  R.stats["optional_parts"] = opt.size();
  R.stats["uses"] = uses;
  R.stats["left_to_callers"] = passed;
  R.stats["caller_checks"] = o.callerChecks;
}
static Reg op0("dump-optional", anDumpOpt, NormOpts());
static Reg op1("optional", anOptional, NormOpts());
