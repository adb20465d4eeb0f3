// Out-of-range API parameters are rejected without effect; in-range ones are not rejected by the check.
#include "report.h"
#include "walk.h"
using namespace sv;
using CR = ConstantRange;

namespace {
struct Rejects {
  Program &P;
  ModRef MR;
  std::set<std::string> harmless; // fields a refused call may still touch
  struct Sum {
    bool effect = false, mayOk = false;
    std::string what;
    std::vector<std::string> path;
  };
  std::map<std::string, Sum> memo;
  std::set<std::string> busy;
  long walked = 0;
  Rejects(Program &P) : P(P), MR(P) {}

  std::string keyOf(const Function *F, const std::map<unsigned, CR> &facts) {
    std::string s;
    raw_string_ostream o(s);
    o << F->getName();
    for (auto &f : facts) { o << "|" << f.first << "="; f.second.print(o); }
    return s;
  }
  bool pure(const Function *G) {
    auto it = MR.mods.find(G);
    if (it == MR.mods.end()) return true;
    for (auto &m : it->second)
      if (m != "*" && !harmless.count(m)) return false;
    return true;
  }
  // what F may do when its arguments satisfy the facts
  const Sum &run(const Function *F, const std::map<unsigned, CR> &facts, int depth) {
    std::string k = keyOf(F, facts);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    Sum s;
    if (!busy.insert(k).second || depth > 7) {
      s.effect = true, s.mayOk = true, s.what = "call too deep to follow";
      return memo[k] = s;
    }
    walked++;
    Walk W(P, *F, MR);
    auto eff = [&](const Instruction *I, const std::string &what, WState &S, const std::vector<std::string> &more = {}) {
      if (s.effect) return;
      s.effect = true;
      W.stop = true;
      s.what = what;
      s.path = Walk::path(S);
      s.path.push_back(what + " at " + loc(I));
      for (auto &m : more) s.path.push_back(m);
    };
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) {
      if (auto *St = dyn_cast<StoreInst>(I)) {
        Addr A = decompose(St->getPointerOperand());
        if (isa<AllocaInst>(A.root)) return true;
        auto fk = ModRef::fieldKey(St->getPointerOperand());
        if (fk.empty() || harmless.count(fk)) return true; // a result variable of the caller
        eff(I, "stores to " + A.str(P), S);
        return true;
      }
      auto *C = dyn_cast<CallBase>(I);
      if (!C || isDbg(C) || isField0(C)) return true;
      if (auto *M = dyn_cast<MemIntrinsic>(C)) {
        if (!isa<AllocaInst>(decompose(M->getDest()).root) && !ModRef::fieldKey(M->getDest()).empty()) eff(I, "writes a block", S);
        return true;
      }
      bool unk;
      std::string slot;
      auto cs = callees(P, C, &unk, &slot);
      if (unk && cs.empty()) { eff(I, "calls " + (slot.empty() ? "a callback" : slot), S); return true; }
      bool allReject = !cs.empty();
      for (auto *G : cs) {
        if (G->isDeclaration()) { allReject = false; continue; }
        std::map<unsigned, CR> f;
        for (unsigned i = 0; i < C->arg_size() && i < G->arg_size(); i++)
          if (Walk::tracked(C->getArgOperand(i))) {
            CR r = W.get(S, C->getArgOperand(i));
            if (!r.isFullSet()) f.insert({i, r});
          }
        const Sum &g = run(G, f, depth + 1);
        if (g.effect) eff(I, "calls " + G->getName().str() + ", which " + g.what, S, g.path);
        if (g.mayOk) allReject = false;
      }
      if (allReject && C->getType()->isIntegerTy()) {
        unsigned b = C->getType()->getIntegerBitWidth();
        S.fact.insert_or_assign(C, CR(APInt(b, 1), APInt::getZero(b)));
      }
      return true;
    };
    W.ret = [&](const ReturnInst *R, WState &S) {
      if (!R->getReturnValue() || !Walk::tracked(R->getReturnValue()) || !W.nonZero(S, R->getReturnValue())) s.mayOk = true;
    };
    WState S;
    for (auto &f : facts) S.fact.insert_or_assign(F->getArg(f.first), f.second);
    W.run(S);
    busy.erase(k);
    return memo[k] = s;
  }
};
} // namespace

static CR rng(unsigned b, int64_t lo, int64_t hi) { return CR::getNonEmpty(APInt(b, (uint64_t)lo, true), APInt(b, (uint64_t)hi + 1, true)); }

static void anApi(Ctx &C, Report &R) {
  Program &P = C.P;
  struct Spec { std::string fn; unsigned arg; int64_t lo, hi; std::map<unsigned, int64_t> with; std::string name; };
  const int64_t M = INT64_MAX;
  std::vector<Spec> specs = {
      {"EAS_SetVolume", 2, 0, 100, {}, "volume"},
      {"EAS_SetTransposition", 2, -12, 12, {}, "transposition"},
      {"EAS_SetPlaybackRate", 2, 1 << 27, 1 << 29, {}, "playback rate"},
      {"EAS_WriteMIDIStream", 3, 1, M, {}, "byte count"},
      {"EAS_SetPriority", 2, 1, 255, {}, "priority"},
      {"EAS_SetPolyphony", 2, 0, M, {}, "polyphony"},
      {"EAS_SetSynthPolyphony", 1, 0, 0, {}, "synthesizer number"},
      {"EAS_GetSynthPolyphony", 1, 0, 0, {}, "synthesizer number"},
  };
  // sizes fixed by the library's own declarations
  int64_t modules = 0, frame = 0;
  if (auto *T = structByName(P, "s_eas_data_tag"))
    for (unsigned i = 0; i < T->getNumElements(); i++)
      if (fieldName(P, "s_eas_data_tag", i, T) == "effectsModules")
        if (auto *A = dyn_cast<ArrayType>(T->getElementType(i))) modules = A->getNumElements();
  if (auto *G = P.M->getGlobalVariable("easLibConfig", true))
    if (auto *I = dyn_cast_or_null<ConstantStruct>(G->hasInitializer() ? G->getInitializer() : nullptr))
      for (unsigned i = 0; i < I->getNumOperands(); i++)
        if (auto *T = dyn_cast<StructType>(I->getType()); T && fieldName(P, structName(T), i, T) == "mixBufferSize")
          if (auto *K = dyn_cast<ConstantInt>(I->getOperand(i))) frame = K->getSExtValue();
  if (modules) {
    specs.push_back({"EAS_SetParameter", 1, 0, modules - 1, {}, "module"});
    specs.push_back({"EAS_GetParameter", 1, 0, modules - 1, {}, "module"});
  } else R.broken.push_back("effect module table not found");
  if (frame) specs.push_back({"EAS_Render", 2, frame, frame, {}, "sample count"});
  else R.broken.push_back("frame size not found");
  // effect parameters, through the modules' interface tables
  auto fx = [&](const std::string &glob, const std::string &slot) -> std::string {
    auto *G = P.M->getGlobalVariable(glob, true);
    auto *I = G && G->hasInitializer() ? dyn_cast<ConstantStruct>(G->getInitializer()) : nullptr;
    if (I)
      for (unsigned i = 0; i < I->getNumOperands(); i++)
        if (fieldName(P, structName(I->getType()), i, I->getType()) == slot)
          if (auto *F = dyn_cast<Function>(I->getOperand(i)->stripPointerCasts())) return F->getName().str();
    R.broken.push_back("effect interface " + glob + "." + slot + " not found");
    return "";
  };
  std::string rs = fx("EAS_Reverb", "pFSetParam"), rg = fx("EAS_Reverb", "pFGetParam"), cs = fx("EAS_Chorus", "pFSetParam"), cg = fx("EAS_Chorus", "pFGetParam");
  specs.push_back({rs, 1, 0, 3, {}, "reverb parameter number"});
  specs.push_back({rg, 1, 0, 3, {}, "reverb parameter number"});
  specs.push_back({rs, 2, 0, 3, {{1, 1}}, "reverb preset"});
  specs.push_back({rs, 2, 0, 32767, {{1, 2}}, "reverb wet level"});
  specs.push_back({rs, 2, 0, 32767, {{1, 3}}, "reverb dry level"});
  specs.push_back({cs, 1, 0, 4, {}, "chorus parameter number"});
  specs.push_back({cg, 1, 0, 4, {}, "chorus parameter number"});
  specs.push_back({cs, 2, 0, 3, {{1, 1}}, "chorus preset"});
  specs.push_back({cs, 2, 10, 50, {{1, 2}}, "chorus rate"});
  specs.push_back({cs, 2, 15, 60, {{1, 3}}, "chorus depth"});
  specs.push_back({cs, 2, 0, 32767, {{1, 4}}, "chorus level"});
  long done = 0;
  for (auto &sp : specs) {
    auto *F = P.M->getFunction(sp.fn);
    if (!F || F->isDeclaration() || F->arg_size() <= sp.arg) { R.broken.push_back("function " + sp.fn + " not found"); continue; }
    unsigned b = Walk::bits(F->getArg(sp.arg));
    auto attempt = [&](CR r) {
      Rejects rj(P);
      for (auto st : {"s_smf_data_tag", "S_TC_DATA"}) // "finished playing" is noticed when the state is asked for
        if (auto *T = structByName(P, st))
          for (unsigned i = 0; i < T->getNumElements(); i++)
            if (fieldName(P, st, i, T) == "state") rj.harmless.insert(std::string(st) + "#" + std::to_string(i));
      if (sp.fn == "EAS_Render")
        if (auto *T = structByName(P, "s_voice_mgr_tag"))
          for (unsigned i = 0; i < T->getNumElements(); i++)
            if (fieldName(P, "s_voice_mgr_tag", i, T) == "workload") rj.harmless.insert("s_voice_mgr_tag#" + std::to_string(i));
      std::map<unsigned, CR> f{{sp.arg, r}};
      for (auto &w : sp.with) f.insert({w.first, CR(APInt(Walk::bits(F->getArg(w.first)), (uint64_t)w.second, true))});
      auto s = rj.run(F, f, 0);
      R.stats["functions_walked"] += rj.walked;
      return s;
    };
    std::vector<CR> bad;
    if (sp.lo > INT64_MIN) bad.push_back(CR::getNonEmpty(APInt::getSignedMinValue(b), APInt(b, (uint64_t)sp.lo, true)));
    if (sp.hi < M) bad.push_back(CR::getNonEmpty(APInt(b, (uint64_t)sp.hi + 1, true), APInt::getSignedMinValue(b)));
    std::string who = sp.fn + "(" + sp.name + ")";
    for (auto &r : bad) {
      done++;
      auto s = attempt(r);
      std::string rs2;
      raw_string_ostream o(rs2);
      r.print(o);
      if (s.effect) R.add(who + ":effect", locF(F), who + ": an out-of-range value in " + rs2 + " has an effect: " + s.what, s.path);
      if (s.mayOk) R.add(who + ":accepted", locF(F), who + ": an out-of-range value in " + rs2 + " is not refused", s.path);
    }
    for (int64_t v : {sp.lo, sp.hi}) {
      if (v == M) continue;
      done++;
      auto s = attempt(CR(APInt(b, (uint64_t)v, true)));
      if (!s.mayOk && !s.effect) R.add(who + ":refused", locF(F), who + ": the legal value " + std::to_string(v) + " is refused");
    }
    R.note("parameters", who + " " + std::to_string(sp.lo) + ".." + (sp.hi == M ? "" : std::to_string(sp.hi)));
  }
  R.stats["obligations"] = done;
  R.stats["parameters"] = specs.size();
}
static Reg a1("apirange", anApi, [] { NormOpts o; return o; }());
