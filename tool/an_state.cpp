// The life of a stream: what each step of a parser does in each of its states, and which of these steps the API takes,
// refuses and reports (typestate over every path).
#include "report.h"
#include "iter.h"
#include "llvm/IR/DebugInfoMetadata.h"
using namespace sv;
using CR = ConstantRange;

namespace {
namespace life {
enum St { READY, PLAY, STOPPING, PAUSING, STOPPED, PAUSED, OPEN, ERROR, ANY, NONE };
const char *SN[] = {"ready", "playing", "stopping", "pausing", "stopped", "paused", "open", "in error", "?", "-"};

struct States {
  Program &P;
  Report &R;
  ModRef MR;
  long cases = 0, obligations = 0, paths = 0;
  std::string iface;                       // name of the table of parser functions
  std::map<std::string, unsigned> slot;    // member -> index
  States(Ctx &C, Report &R) : P(C.P), R(R), MR(C.P) {
    for (auto &m : P.memberOfs)
      if (m.second.count("pfState") && m.second.count("pfEvent") && m.second.count("pfPause")) iface = m.first;
  }
  std::vector<Function *> targets(const std::string &member) {
    auto *T = structByName(P, iface);
    std::vector<Function *> r;
    if (!T) return r;
    for (unsigned i = 0; i < T->getNumElements(); i++)
      if (fieldName(P, iface, i, T) == iface + "." + member || fieldName(P, iface, i, T) == member) {
        auto it = P.slotTargets.find(iface + "#" + std::to_string(i));
        if (it != P.slotTargets.end()) r = it->second;
      }
    return r;
  }
  CR one(long v, unsigned w = 64) { return CR(APInt(w, v)); }
  // does the function, or what it calls, reach a call of the named function?
  std::map<std::pair<const Function *, std::string>, bool> rm;
  bool reaches(const Function *F, const std::string &n, int d = 12) {
    if (F->getName() == n) return true;
    auto k = std::make_pair(F, n);
    auto it = rm.find(k);
    if (it != rm.end()) return it->second;
    rm[k] = false;
    if (!d) return false;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I)) {
        if (isDbg(C) || isField0(C)) continue;
        for (auto *G : callees(P, C)) if (reaches(G, n, d - 1)) return rm[k] = true;
      }
    return false;
  }
  bool inlinedFrom(const Instruction *I, const std::string &fn) {
    for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt())
      if (auto *S = L->getScope()->getSubprogram()) if (S->getName() == fn) return true;
    return false;
  }

  // ---- parsers -----------------------------------------------------------------------------------------------------
  std::map<std::string, std::string> stateField; // struct of the instance data -> field key
  std::string fieldOfState(const Function *F) {
    for (auto &I : instructions(F)) {
      auto *S = dyn_cast<StoreInst>(&I);
      if (!S || decompose(S->getPointerOperand()).root != F->getArg(2)) continue;
      std::set<const Value *> seen;
      std::vector<const Value *> todo{S->getValueOperand()};
      while (!todo.empty()) {
        auto *v = todo.back(); todo.pop_back();
        if (!seen.insert(v).second) continue;
        if (auto *L = dyn_cast<LoadInst>(v)) { if (decompose(L->getPointerOperand()).root == F->getArg(1)) return decompose(L->getPointerOperand()).field(P); }
        if (auto *c = dyn_cast<CastInst>(v)) todo.push_back(c->getOperand(0));
        if (auto *p = dyn_cast<PHINode>(v)) for (auto &u : p->incoming_values()) todo.push_back(u);
        if (auto *s = dyn_cast<SelectInst>(v)) { todo.push_back(s->getTrueValue()); todo.push_back(s->getFalseValue()); }
      }
    }
    return "";
  }

  void parser(const Function *Fs) {
    std::string field = fieldOfState(Fs);
    std::string who = Fs->getName().str();
    if (field.empty()) { R.broken.push_back("no state field behind " + who); return; }
    std::string st = field.substr(0, field.find('.'));
    R.note("parsers", st);
    stateField[st] = field;
    auto mine = [&](const char *member) -> const Function * {
      for (auto *F : targets(member))
        for (auto &I : instructions(F)) {
          const Value *p = isa<LoadInst>(I) ? cast<LoadInst>(I).getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I).getPointerOperand() : nullptr;
          if (p && decompose(p).field(P) == field) return F;
        }
      return nullptr;
    };
    for (auto *m : {"pfPrepare", "pfEvent", "pfState", "pfReset", "pfPause", "pfResume"}) {
      auto *F = mine(m);
      if (!F) { R.add(std::string("missing:") + st + ":" + m, who, st + " has no " + m + " that knows about its state"); continue; }
      step(F, m, field, st);
    }
  }

  void step(const Function *F, const std::string &role, const std::string &field, const std::string &st) {
    R.note("functions", F->getName().str() + " (" + role + ")");
    // a call that lets go of / silences every voice, that reads the file, that resets
    enum { Muted, Released, Asked, Fallen, Effect, N };
    std::vector<const Value *> tab{nullptr};
    std::map<const Value *, int> id;
    auto intern = [&](const Value *v) { auto it = id.find(v); if (it != id.end()) return it->second; id[v] = tab.size(); tab.push_back(v); return (int)tab.size() - 1; };
    auto fall = fallible(P);
    bool feeds = reaches(F, "EAS_ParseMIDIStream");
    for (int s = READY; s <= ERROR; s++) {
      cases++;
      Walk W(P, *F, MR);
      W.maxStates = 60;
      WState init;
      init.ts.assign(N, 0);
      std::string cell;
      for (auto &I : instructions(F)) {
        const Value *p = isa<LoadInst>(I) ? cast<LoadInst>(I).getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I).getPointerOperand() : nullptr;
        if (!p) continue;
        Addr A = decompose(p);
        if (A.field(P) != field) continue;
        if (A.root != F->getArg(1) || A.steps.size() != 1) { R.broken.push_back(F->getName().str() + ": state of another stream"); return; }
        cell = W.cell(init, p);
        init.mem[cell] = ConstantInt::get(isa<LoadInst>(I) ? I.getType() : cast<StoreInst>(I).getValueOperand()->getType(), s);
      }
      auto stateOf = [&](WState &S) -> CR {
        auto it = S.mem.find(cell);
        if (it == S.mem.end()) return CR::getFull(64);
        return W.get(S, it->second);
      };
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
        auto &t = S.ts;
        if (auto *L = dyn_cast<LoadInst>(I)) {
          if (decompose(L->getPointerOperand()).field(P) == "s_synth_tag.numActiveVoices") t[Asked] = intern(L);
          return true;
        }
        if (auto *Sr = dyn_cast<StoreInst>(I)) {
          if (!isa<AllocaInst>(decompose(Sr->getPointerOperand()).root) && decompose(Sr->getPointerOperand()).root != (F->arg_size() > 2 ? F->getArg(2) : nullptr)) {
            std::string c = W.cell(S, Sr->getPointerOperand());
            if (c != cell) t[Effect] = 1;
          }
          return true;
        }
        auto *C = dyn_cast<CallBase>(I);
        if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) return true;
        std::string n = calleeName(C);
        if (n == "VMMuteAllVoices") t[Muted] = 1;
        if (n == "VMReleaseAllVoices") t[Released] = 1;
        if (n == "VMActiveVoices") { t[Asked] = intern(C); return true; }
        for (auto *G : callees(P, C)) {
          if (MR.mods.count(G) && !MR.mods.at(G).empty()) t[Effect] = 1;
          if (fall.count(G)) t[Fallen] = std::min(t[Fallen] + 1, 2);
        }
        return true;
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) {
        paths++;
        auto &t = S.ts;
        CR f = stateOf(S);
        CR rv = Rt->getReturnValue() ? W.get(S, Rt->getReturnValue()) : CR::getFull(64);
        bool ok = rv.contains(APInt(rv.getBitWidth(), 0)), err = !(rv.isSingleElement() && ok);
        auto in = [&](std::initializer_list<int> l) {
          for (int k = READY; k <= ERROR; k++)
            if (f.contains(APInt(f.getBitWidth(), k)) && std::find(l.begin(), l.end(), k) == l.end()) return false;
          return f.getUnsignedMax().ule(ERROR);
        };
        auto is = [&](int k) { return f.isSingleElement() && f.getSingleElement()->getZExtValue() == (uint64_t)k; };
        auto want = [&](const char *k, bool good, const std::string &m) {
          obligations++;
          if (!good) R.add(st + ":" + role + ":" + SN[s] + ":" + k, loc(Rt), F->getName().str() + " on a stream that is " + SN[s] + ": " + m, Walk::path(S));
        };
        auto refused = [&](const char *why) {
          want("refused", !ok, std::string("succeeds, ") + why);
          want("effect", !t[Effect] && is(s), std::string("changes something, ") + why);
        };
        if (role == "pfState") {
          want("error", !err, "may fail");
          auto ov = CR::getFull(64);
          for (auto &m : S.mem) { (void)m; }
          // what is reported is the state
          std::string oc = std::to_string((uintptr_t)W.canon(S, F->getArg(2)));
          auto it = S.mem.find(oc);
          if (it != S.mem.end()) ov = W.get(S, it->second);
          want("report", it != S.mem.end() && f.isSingleElement() && ov.isSingleElement() && ov.getSingleElement()->getZExtValue() == f.getSingleElement()->getZExtValue(), "does not report its state");
          int end = s == STOPPING ? STOPPED : s == PAUSING ? PAUSED : s;
          if (end == s) { want("kept", is(s), "changes it by being asked"); return; }
          const Value *q = tab[t[Asked]];
          bool zero = q && W.isZero(S, q), non = q && W.nonZero(S, q);
          if (zero) want("silent", is(end), std::string("is not ") + SN[end] + " although all of its voices are silent");
          else if (non) want("sounding", is(s), std::string("is ") + SN[end] + " although voices still sound");
          else want("voices", false, "does not look whether voices still sound");
          return;
        }
        if (role == "pfPrepare") {
          if (s != OPEN) { refused("it can be prepared only once"); return; }
          if (!err) want("ready", is(READY), "is prepared but not ready");
          else if (!ok) {
            want("error", in({OPEN, ERROR}), "failed but counts as prepared");
            if (t[Fallen] > 1) want("half", is(ERROR), "failed half-way but could be prepared again");
          } else want("mixed", false, "result and state do not tell whether it is prepared");
          return;
        }
        if (role == "pfEvent") {
          if (s >= OPEN) { want("effect", !t[Effect] && is(s), "plays"); want("result", !err, "fails"); return; }
          if (s > PLAY) return; // not asked for events then
          if (!err) {
            want("go", in({PLAY, STOPPING, s}), "played an event but is neither playing nor stopping");
            if (feeds && !in({READY, PLAY})) want("release", is(STOPPING) && t[Released], "stops without releasing its voices");
          } else if (!ok) want("error", is(ERROR) || (is(s) && !t[Fallen]), "failed but is not in error");
          else want("go", in({PLAY, STOPPING, s, ERROR}), "is neither playing nor stopping nor in error");
          return;
        }
        if (role == "pfReset") {
          if (s >= OPEN) return;
          if (!err) want("ready", is(READY), "was rewound but is not ready");
          else if (!ok) want("error", in({s, ERROR}), "could not be rewound but is in a new state");
          else want("mixed", in({READY}), "result and state do not tell whether it is rewound");
          return;
        }
        if (role == "pfPause") {
          if (s == STOPPED) { refused("it has ended"); return; }
          if (s > PLAY) return;
          want("result", !err, "cannot be paused");
          want("pausing", is(PAUSING), "is not pausing");
          want("mute", t[Muted], "goes on sounding");
          return;
        }
        if (role == "pfResume") {
          if (s == STOPPED) { refused("it has ended"); return; }
          if (s != PAUSING && s != PAUSED) return;
          want("result", !err, "cannot be resumed");
          want("playing", is(PLAY), "does not play");
          return;
        }
      };
      W.run(init);
    }
  }

  // no other function moves a stream to another state
  void census() {
    std::set<const Function *> known;
    for (auto *m : {"pfPrepare", "pfEvent", "pfState", "pfReset", "pfPause", "pfResume"})
      for (auto *F : targets(m)) known.insert(F);
    for (auto &F : *P.M)
      for (auto &I : instructions(F)) {
        auto *S = dyn_cast<StoreInst>(&I);
        if (!S) continue;
        std::string f = decompose(S->getPointerOperand()).field(P);
        bool mine = false;
        for (auto &x : stateField) mine |= x.second == f;
        if (!mine || known.count(&F)) continue;
        obligations++;
        auto *K = dyn_cast<ConstantInt>(S->getValueOperand());
        R.note("other writers", F.getName().str());
        if (!K || (K->getZExtValue() != OPEN && K->getZExtValue() != ERROR)) R.add("writer:" + F.getName().str(), loc(S), F.getName().str() + " moves a stream to another state");
      }
  }

  // ---- API ---------------------------------------------------------------------------------------------------------
  enum Op { oState = 1, oEvent, oPause, oResume, oReset, oPrepare, oOther };
  std::map<std::string, int> opOf{{"pfState", oState}, {"pfEvent", oEvent}, {"pfPause", oPause}, {"pfResume", oResume}, {"pfReset", oReset}, {"pfPrepare", oPrepare}, {"pfLocate", oOther}, {"pfGetMetaData", oOther}};
  int op(const CallBase *C) {
    std::string sl = slotOf(P, C->getCalledOperand());
    auto d = sl.find('.');
    if (d != std::string::npos && sl.substr(0, d) == iface) {
      auto it = opOf.find(sl.substr(d + 1));
      return it == opOf.end() ? 0 : it->second;
    }
    if (auto *F = C->getCalledFunction())
      for (auto &o : opOf) {
        if (o.second == oOther) continue;
        for (auto *T : targets(o.first)) if (T == F) return o.second;
      }
    return 0;
  }
  // which of the changing steps a function may take
  std::map<const Function *, bool> chg;
  bool changes(const Function *F, int d = 10) {
    auto it = chg.find(F);
    if (it != chg.end()) return it->second;
    chg[F] = false;
    if (!d) return true;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I)) {
        if (isDbg(C) || isField0(C)) continue;
        int o = op(C);
        if (o > oState && o != oOther) return chg[F] = true;
        if (o) continue;
        for (auto *G : callees(P, C)) if (changes(G, d - 1)) return chg[F] = true;
      }
    return false;
  }

  enum { Abs, DidPause, DidResume, DidReset, DidPrep, DidEvent, LastReset, Eff, Flags, AN };
  const unsigned pauseBit = 2, locateBit = 4, resumeBit = 8;

  // abstract effect of a parser step on the typestate; false = the path ends
  // (the first nine entries of the typestate are those above)
  bool apply(Walk &W, int o, const CallBase *C, WState &S, std::vector<WState> &extra) {
    auto &t = S.ts;
    unsigned w = C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 64;
    auto succeed = [&](WState &X) { if (C->getType()->isIntegerTy()) W.refine(X, C, one(0, w)); };
    auto fail = [&](WState &X) { return W.refine(X, C, one(0, w).inverse()); };
    if (o == oOther) return false; // no parser that is built has these
    if (o == oState) {
      succeed(S);
      std::vector<int> now;
      if (t[Abs] == ANY) now = {READY, PLAY, STOPPING, PAUSING, STOPPED, PAUSED, OPEN, ERROR};
      else if (t[Abs] == STOPPING) now = {STOPPING, STOPPED};
      else if (t[Abs] == PAUSING) now = {PAUSING, PAUSED};
      else now = {t[Abs]};
      auto *out = C->getArgOperand(2);
      Type *ty = IntegerType::get(C->getContext(), 64);
      WState base = S;
      bool first = true;
      for (int k : now) {
        WState X = base;
        X.ts[Abs] = k;
        X.mem[W.cell(X, out)] = ConstantInt::get(ty, k);
        if (first) S = X; else extra.push_back(X);
        first = false;
      }
      return true;
    }
    WState bad = S;
    auto set = [&](int d, std::vector<int> to, std::vector<int> onFail) {
      if (d >= 0) t[d] = bad.ts[d] = 1;
      t[LastReset] = bad.ts[LastReset] = o == oReset;
      succeed(S);
      WState base = S;
      for (unsigned i = 0; i < to.size(); i++) { WState X = base; X.ts[Abs] = to[i]; if (!i) S = X; else extra.push_back(X); }
      if (fail(bad)) for (int k : onFail) { WState X = bad; X.ts[Abs] = k; extra.push_back(X); }
    };
    int s = t[Abs];
    if (o == oEvent) set(DidEvent, {PLAY, STOPPING}, {ERROR});
    if (o == oPause) { if (s == STOPPED) set(DidPause, {}, {s}); else set(DidPause, {PAUSING}, {}); if (s == STOPPED) { S = extra.back(); extra.pop_back(); } }
    if (o == oResume) { if (s == STOPPED) { set(DidResume, {}, {s}); S = extra.back(); extra.pop_back(); } else set(DidResume, {PLAY}, {}); }
    if (o == oReset) set(DidReset, {READY}, {s});
    if (o == oPrepare) { if (s == OPEN) set(DidPrep, {READY}, {OPEN, ERROR}); else { set(DidPrep, {}, {s}); S = extra.back(); extra.pop_back(); } }
    return true;
  }

  void api(const char *name, bool only = false) {
    auto *F = P.M->getFunction(name);
    if (!F || F->isDeclaration()) { R.broken.push_back(std::string(name) + " is not there"); return; }
    R.note("functions", std::string(name) + " (API)");
    std::string n = name;
    unsigned iStream = 1;
    for (int s = only ? OPEN : READY; s <= ERROR; s++)
      for (int rep = 0; rep < (n == "EAS_State" ? 2 : 1); rep++)
        for (int fl : {0, 1, 4, 5}) {
          cases++;
          Walk W(P, *F, MR);
          W.maxStates = 4;
          WState init;
          init.ts.assign(AN, 0);
          init.ts[Abs] = s;
          W.refine(init, F->getArg(iStream), CR(APInt::getZero(64)).inverse());
          init.ts[Flags] = fl;
          std::string flagCell, flagKey;
          std::string timeCell;
          std::unique_ptr<Argument> ph;
          for (auto &I : instructions(F)) {
            const Value *p = isa<LoadInst>(I) ? cast<LoadInst>(I).getPointerOperand() : isa<StoreInst>(I) ? cast<StoreInst>(I).getPointerOperand() : nullptr;
            if (!p) continue;
            Addr A = decompose(p);
            if (A.root != F->getArg(iStream)) continue;
            std::string f = A.field(P);
            Type *ty = isa<LoadInst>(I) ? I.getType() : cast<StoreInst>(I).getValueOperand()->getType();
            if (f == "s_eas_stream_tag.streamFlags") init.mem[flagCell = W.cell(init, p)] = ConstantInt::get(ty, fl), flagKey = ModRef::fieldKey(p);
            if (f == "s_eas_stream_tag.time") timeCell = W.cell(init, p);
            if (f == "s_eas_stream_tag.repeatCount") {
              if (!ph) ph.reset(new Argument(ty));
              W.refine(init, ph.get(), rep ? one(0, ty->getIntegerBitWidth()).inverse() : one(0, ty->getIntegerBitWidth()));
              init.mem[W.cell(init, p)] = ph.get();
            }
            if (f == "s_eas_stream_tag.pParserModule" && isa<LoadInst>(I)) {
              // a stream that has a parser
              W.refine(init, &I, CR(APInt::getZero(64)).inverse());
            }
          }
          W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) -> bool {
            auto &t = S.ts;
            if (auto *L = dyn_cast<LoadInst>(I)) {
              if (decompose(L->getPointerOperand()).field(P) == "s_eas_stream_tag.pParserModule") return W.refine(S, L, CR(APInt::getZero(64)).inverse());
              if (flagCell.size() && t[Flags] >= 0 && W.cell(S, L->getPointerOperand()) == flagCell) return W.refine(S, L, one(t[Flags], L->getType()->getIntegerBitWidth()));
              // every parser has these (see parser())
              std::string sl = slotOf(P, L);
              auto d = sl.find('.');
              if (d != std::string::npos && sl.substr(0, d) == iface && opOf.count(sl.substr(d + 1)))
                return W.refine(S, L, opOf[sl.substr(d + 1)] == oOther ? CR(APInt::getZero(64)) : CR(APInt::getZero(64)).inverse());
              return true;
            }
            if (auto *Sr = dyn_cast<StoreInst>(I)) {
              Addr A = decompose(Sr->getPointerOperand());
              if (A.root == F->getArg(iStream)) {
                std::string f = A.field(P);
                if (f == "s_eas_stream_tag.streamFlags") { auto r = W.get(S, Sr->getValueOperand(), 24); t[Flags] = r.isSingleElement() ? (int)r.getSingleElement()->getZExtValue() : -1; if (!(r.isSingleElement() && r.getSingleElement()->getZExtValue() == (uint64_t)fl)) t[Eff] = 1; }
                else t[Eff] = 1;
              } else if (!isa<AllocaInst>(A.root) && !ModRef::fieldKey(Sr->getPointerOperand()).empty()) t[Eff] = 1;
              return true;
            }
            auto *C = dyn_cast<CallBase>(I);
            if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) return true;
            if (int o = op(C)) return apply(W, o, C, S, extra);
            for (auto *G : callees(P, C)) {
              if (flagKey.size() && MR.mods.count(G) && MR.mods.at(G).count(flagKey)) t[Flags] = -1;
              if (changes(G)) { t[Abs] = ANY; t[LastReset] = 0; t[Eff] = 1; }
              if (MR.mods.count(G) && !MR.mods.at(G).empty() && !C->getCalledFunction()) t[Eff] = 1;
            }
            return true;
          };
          W.ret = [&](const ReturnInst *Rt, WState &S) {
            paths++;
            auto &t = S.ts;
            CR rv = Rt->getReturnValue() ? W.get(S, Rt->getReturnValue()) : CR::getFull(64);
            bool ok = rv.contains(APInt(rv.getBitWidth(), 0)), err = !(rv.isSingleElement() && ok);
            auto want = [&](const char *k, bool good, const std::string &m) {
              obligations++;
              if (!good) R.add(n + ":" + SN[s] + ":" + k, loc(Rt), n + " on a stream that is " + SN[s] + ": " + m, Walk::path(S));
            };
            bool any = t[DidPause] || t[DidResume] || t[DidReset] || t[DidPrep] || t[DidEvent];
            auto refused = [&](const char *why) {
              want("refused", !ok, std::string("succeeds, ") + why);
              want("effect", !any && !t[Eff], std::string("has an effect, ") + why);
            };
            // no request stays pending: each is carried out at once
            if (!flagCell.empty()) {
              bool pend = t[Flags] < 0 || (t[Flags] & (pauseBit | resumeBit));
              want("pending", !pend, "leaves a request to pause or resume pending");
            }
            if (only) { refused("it is not prepared"); return; }
            if (n == "EAS_Prepare") {
              if (s != OPEN) { refused("it can be prepared only once"); return; }
              want("prepare", t[DidPrep], "is not prepared");
              if (!err) want("ready", t[Abs] == READY, "prepared but not ready");
              return;
            }
            if (n == "EAS_Pause") {
              if (s > PLAY) { refused("only a stream that plays can be paused"); return; }
              want("pause", t[DidPause] && (t[Abs] == PAUSING || t[Abs] == PAUSED) && !t[DidResume] && !t[DidReset] && !t[DidEvent], "is not paused");
              want("result", !err, "cannot be paused");
              return;
            }
            if (n == "EAS_Resume") {
              if (s != PAUSING && s != PAUSED) { refused("only a paused stream can be resumed"); return; }
              want("resume", t[DidResume] && t[Abs] == PLAY && !t[DidPause] && !t[DidReset] && !t[DidEvent], "does not go on");
              want("result", !err, "cannot be resumed");
              return;
            }
            if (n == "EAS_Locate") {
              if (s >= OPEN) { refused("nothing can be located in it"); return; }
              if (!ok || (err && !any)) return;
              bool was = s == PAUSING || s == PAUSED;
              if (was) want("paused", t[Abs] != PLAY && t[Abs] != READY && t[Abs] != ANY, "goes on playing after seeking");
              else want("playing", !t[DidPause] && (s != PLAY || t[Abs] != PAUSED), "is paused by seeking");
              if (any) want("rewind", t[DidReset], "is not rewound before seeking");
              return;
            }
            if (n == "EAS_ParseMetaData") {
              if (s >= OPEN) { refused("it is not prepared"); return; }
              if (!ok) return;
              if (err && !any) return;
              want("rewound", t[Abs] == READY && t[LastReset], "is not at its beginning afterwards");
              return;
            }
            if (n == "EAS_GetLocation") {
              if (s >= OPEN) { refused("it has no location yet"); return; }
              want("result", !err, "has no location");
              return;
            }
            if (n == "EAS_State") {
              want("result", !err, "its state is not told");
              want("effect", !any, "asking changes its state");
              int w = t[Abs] == STOPPED && rep ? PLAY : t[Abs];
              auto it = S.mem.find(std::to_string((uintptr_t)W.canon(S, F->getArg(2))));
              CR o = it == S.mem.end() ? CR::getFull(64) : W.get(S, it->second);
              want(rep ? "repeat" : "report", o.isSingleElement() && o.getSingleElement()->getZExtValue() == (uint64_t)w, std::string("is reported otherwise than ") + SN[w] + (rep ? " (it repeats)" : ""));
              return;
            }
          };
          W.run(init);
          if (W.overflow) R.note("overflow", n);
        }
  }
};

// The clock: which events a block takes, how far a stream and the library advance, when a stream starts over.
struct Clock : States {
  Clock(Ctx &C, Report &R) : States(C, R) {
    for (auto *m : {"pfState", "pfEvent", "pfReset", "pfPause", "pfResume", "pfPrepare", "pfTime"})
      if (targets(m).empty()) R.broken.push_back(std::string("no parser has ") + m);
    have = {"pfState", "pfEvent", "pfReset", "pfPause", "pfResume", "pfPrepare", "pfTime"};
    // a member every table fills
    for (auto it = have.begin(); it != have.end();) it = filled(*it) ? std::next(it) : have.erase(it);
    for (auto *m : {"pfLocate", "pfGetMetaData"}) if (targets(m).empty()) none.insert(m);
  }
  std::set<std::string> have, none;
  bool filled(const std::string &member) {
    auto *T = structByName(P, iface);
    if (!T) return false;
    for (unsigned i = 0; i < T->getNumElements(); i++) {
      std::string f = fieldName(P, iface, i, T);
      if (f != iface + "." + member && f != member) continue;
      auto it = P.slotTables.find(iface);
      if (it == P.slotTables.end()) return false;
      for (auto *G : it->second) {
        if (!G->hasInitializer()) return false;
        auto *E = G->getInitializer()->getAggregateElement(i);
        if (!E || E->isNullValue()) return false;
      }
      return true;
    }
    return false;
  }
  bool isTime(const CallBase *C) {
    std::string sl = slotOf(P, C->getCalledOperand());
    if (sl == iface + ".pfTime") return true;
    if (auto *F = C->getCalledFunction()) for (auto *T : targets("pfTime")) if (T == F) return true;
    return false;
  }
  long streams() { // number of streams of the library
    auto *T = structByName(P, "s_eas_data_tag");
    if (T)
      for (auto *e : T->elements())
        if (auto *A = dyn_cast<ArrayType>(e)) if (auto *E = dyn_cast<StructType>(A->getElementType())) if (structName(E) == "s_eas_stream_tag") return A->getNumElements();
    return 0;
  }
  long turns(FnInfo &fi, Loop *L) {
    SmallVector<BasicBlock *, 8> ex;
    L->getExitingBlocks(ex);
    for (auto *B : ex)
      if (auto *K = dyn_cast<SCEVConstant>(fi.SE.getExitCount(L, B))) {
        long n = K->getAPInt().getZExtValue();
        return n + (B == L->getLoopLatch() ? 1 : 0);
      }
    return -1;
  }
  long frame = 0;

  enum { A_, DP, DR, DRs, DPr, DE, LR, EF, FL, // as the others (apply)
         Ph, Due, Rc, Rst, RcW, Tw, Seen, Fresh, Pm, Gen, Adv, Clr, Old, Goal, N };
  void loops(const char *name) {
    auto *F = P.M->getFunction(name);
    if (!F || F->isDeclaration()) { R.broken.push_back(std::string(name) + " is not there"); return; }
    R.note("functions", name);
    std::string n = name;
    bool render = n == "EAS_Render", locate = n == "EAS_Locate";
    FnInfo fi(*F);
    // the loops over the streams
    Loop *L1 = nullptr;
    std::set<Loop *> clearing;
    for (auto *B : fi.LI.getLoopsInPreorder()) {
      bool ask = false, fl = false;
      for (auto *BB : B->blocks())
        for (auto &I : *BB) {
          if (auto *C = dyn_cast<CallBase>(&I)) ask |= !isDbg(C) && op(C) == oState;
          if (auto *S = dyn_cast<StoreInst>(&I)) fl |= decompose(S->getPointerOperand()).field(P) == "s_eas_stream_tag.streamFlags";
        }
      if (ask && !L1 && render) L1 = B;
      else if (fl && !ask && !B->getParentLoop()) clearing.insert(B);
    }
    if (render) {
      obligations++;
      if (!L1) { R.broken.push_back("EAS_Render: no loop over the streams"); return; }
      cases++;
      if (turns(fi, L1) != streams()) R.add(n + ":streams", loc(L1->getHeader()->getTerminator()), n + " does not go through all streams");
    }
    Walk W(P, *F, MR);
    W.maxStates = 12;
    std::vector<const Value *> tab{nullptr};
    std::map<const Value *, int> id;
    auto intern = [&](const Value *v) { auto it = id.find(v); if (it != id.end()) return it->second; id[v] = tab.size(); tab.push_back(v); return (int)tab.size() - 1; };
    std::set<const Value *> nextAt; // where the time of the next event is delivered
    for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (!isDbg(C) && isTime(C)) nextAt.insert(stripCasts(C->getArgOperand(2)));
    auto leaf = [&](const Value *v) -> std::string {
      if (auto *L = dyn_cast<LoadInst>(v)) {
        if (nextAt.count(stripCasts(L->getPointerOperand()))) return "next";
        Addr A = decompose(L->getPointerOperand());
        std::string f = A.field(P);
        if (f.substr(0, 17) == "s_eas_stream_tag." || f.substr(0, 15) == "s_eas_data_tag.") return f.substr(f.find('.') + 1);
      }
      if (auto *A = dyn_cast<Argument>(v)) return "arg" + std::to_string(A->getArgNo());
      if (isa<PHINode>(v)) return locate && v->getType()->isIntegerTy(64) ? "target" : "";
      return "";
    };
    auto norm = [&](const WState &S, const Value *v) { return Norm{W, S, leaf}.str(v); };
    auto viol = [&](const std::string &k, const Instruction *I, const WState &S, const std::string &m) { R.add(n + ":" + k, loc(I), n + " " + m, Walk::path(S)); };
    // what a value may be made of, whatever way it took
    std::function<std::set<std::string>(const Value *, int)> alts = [&](const Value *v, int d) -> std::set<std::string> {
      v = stripCasts(v);
      if (!d) return {"?"};
      std::set<std::string> out;
      auto all = [&](const Value *x) { for (auto &e : alts(x, d - 1)) out.insert(e); };
      if (auto *K = dyn_cast<ConstantInt>(v)) return {std::to_string(K->getSExtValue())};
      if (isa<LoadInst>(v)) { std::string l = leaf(v); return {l.empty() ? "?" : l}; }
      if (auto *A = dyn_cast<Argument>(v)) return {"arg" + std::to_string(A->getArgNo())};
      if (auto *Ph = dyn_cast<PHINode>(v)) { for (auto &u : Ph->incoming_values()) if (u.get() != Ph) all(u.get()); return out; }
      if (auto *Se = dyn_cast<SelectInst>(v)) { all(Se->getTrueValue()); all(Se->getFalseValue()); return out; }
      if (auto *M = dyn_cast<MinMaxIntrinsic>(v)) { all(M->getLHS()); all(M->getRHS()); return out; }
      if (auto *Z = dyn_cast<CastInst>(v)) { all(Z->getOperand(0)); return out; }
      if (auto *B = dyn_cast<BinaryOperator>(v)) {
        for (auto &a : alts(B->getOperand(0), d - 1))
          for (auto &b : alts(B->getOperand(1), d - 1)) {
            switch (B->getOpcode()) {
            case Instruction::Add: out.insert(a == "0" ? b : b == "0" ? a : a < b ? "add(" + a + "," + b + ")" : "add(" + b + "," + a + ")"); break;
            case Instruction::LShr: case Instruction::AShr: out.insert(a == "0" ? a : "shr(" + a + "," + b + ")"); break;
            case Instruction::SDiv: case Instruction::UDiv: out.insert(a == "0" ? a : b == "256" ? "shr(" + a + ",8)" : "?"); break;
            case Instruction::And: case Instruction::Mul: if (a == "0" || b == "0") out.insert("0"); else out.insert("?"); break;
            default: out.insert("?");
            }
          }
        return out;
      }
      return {"?"};
    };
    std::set<const Value *> asked; // where to go to
    auto target = [&](const Value *v, const Instruction *I, const WState &S) {
      obligations++;
      if (W.get(S, v, 24).getSignedMin().isNegative()) viol("target", I, S, "may seek to a time before the beginning");
      if (!asked.insert(v).second) return;
      static const std::set<std::string> allowed{"0", "arg2", "add(arg2,shr(time,8))"};
      auto got = alts(v, 12);
      for (auto &g : got) if (!allowed.count(g)) { viol("target", I, S, "seeks to " + g); return; }
      if (got.size() != allowed.size()) viol("target", I, S, "does not seek to the time asked for, by itself or as an offset, but not before the beginning");
    };
    auto endTime = [&](const std::string &e) {
      if (render) return e == "add(frameLength,time)";
      if (locate) return e == "mul(256,target)" || e == "mul(256,arg2)" || (e.substr(0, 11) == "mul(256,and" && e.find("next") == std::string::npos);
      return e == "2147483647";
    };
    auto fresh = [&](WState &S) {
      auto &t = S.ts;
      for (int k : {A_, DP, DR, DRs, DPr, DE, LR, EF, Due, Rc, Rst, RcW, Tw, Seen, Fresh, Pm}) t[k] = 0;
      t[A_] = ANY;
      t[FL] = t[Old] = -2;
      for (auto it = S.mem.begin(); it != S.mem.end();) it = it->first.find("s_eas_stream_tag") != std::string::npos ? S.mem.erase(it) : std::next(it);
    };
    auto flagLoad = [&](const LoadInst *L, WState &S, std::vector<WState> &extra) {
      unsigned w = L->getType()->getIntegerBitWidth();
      if (S.ts[FL] >= 0) return W.refine(S, L, one(S.ts[FL], w));
      if (S.ts[FL] == -1) return true;
      WState base = S;
      bool first = true;
      for (int f : {0, 1, 4, 5}) { // no request is pending (C24)
        WState X = base;
        X.ts[FL] = X.ts[Old] = f;
        if (!W.refine(X, L, one(f, w))) continue;
        if (first) S = X; else extra.push_back(X);
        first = false;
      }
      return !first;
    };
    WState init;
    init.ts.assign(N, 0);
    fresh(init);
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) -> bool {
      auto &t = S.ts;
      if (auto *L = dyn_cast<LoadInst>(I)) {
        std::string f = decompose(L->getPointerOperand()).field(P);
        if (f == "s_eas_stream_tag.streamFlags") return flagLoad(L, S, extra);
        if (f == "s_eas_stream_tag.pParserModule") {
          if (!render || t[Seen]) return W.refine(S, L, CR(APInt::getZero(64)).inverse());
          if (!t[Pm]) t[Pm] = intern(L);
          else if (tab[t[Pm]] != L) S.same[L] = tab[t[Pm]];
          return true;
        }
        if (f == "s_eas_stream_tag.repeatCount" && render && !t[RcW]) {
          unsigned w = L->getType()->getIntegerBitWidth();
          CR zero = one(0, w), pos(APInt(w, 1), APInt::getSignedMinValue(w)), neg(APInt::getSignedMinValue(w), APInt(w, 0));
          if (t[Rc]) return W.refine(S, L, t[Rc] == 1 ? zero : t[Rc] == 2 ? pos : neg);
          WState base = S;
          bool first = true;
          for (int k = 1; k <= 3; k++) {
            WState X = base;
            X.ts[Rc] = k;
            if (!W.refine(X, L, k == 1 ? zero : k == 2 ? pos : neg)) continue;
            if (first) S = X; else extra.push_back(X);
            first = false;
          }
          return !first;
        }
        std::string sl = slotOf(P, L);
        auto d = sl.find('.');
        if (d != std::string::npos && sl.substr(0, d) == iface) {
          if (have.count(sl.substr(d + 1))) return W.refine(S, L, CR(APInt::getZero(64)).inverse());
          if (none.count(sl.substr(d + 1))) return W.refine(S, L, CR(APInt::getZero(64)));
        }
        return true;
      }
      if (auto *Sr = dyn_cast<StoreInst>(I)) {
        Addr A = decompose(Sr->getPointerOperand());
        std::string f = A.field(P);
        if (f == "s_eas_stream_tag.streamFlags") {
          auto r = W.get(S, Sr->getValueOperand(), 24);
          int now = r.isSingleElement() ? (int)r.getSingleElement()->getZExtValue() : -1;
          if (now >= 0 && (now & 1) && !(t[FL] >= 0 && (t[FL] & 1))) {
            obligations++;
            if (!(t[Due] == 2 || (t[Fresh] && t[A_] > PLAY))) viol("parsed", I, S, "takes a block as parsed although an event may still be due");
            else if (t[Due] == 2 && t[A_] <= PLAY && t[Tw] != 2) viol("advance", I, S, "takes a block as parsed but does not move the stream to its end");
          }
          t[FL] = now;
          return true;
        }
        if (f == "s_eas_stream_tag.time") {
          obligations++;
          std::string v = norm(S, Sr->getValueOperand());
          if (v == "0") { t[Tw] = 1; if (render && !t[Rst] && !(t[Fresh] && t[A_] == STOPPED && (t[Rc] == 2 || t[Rc] == 3))) viol("zero", I, S, "sets a stream back to time 0 that it does not rewind"); }
          else if (endTime(v)) { if (render && t[Old] >= 0 && (t[Old] & 1)) viol("twice", I, S, "moves a stream through a block it has already been through"); t[Tw] = 2; if (t[Due] != 2) viol("time", I, S, "moves a stream to the end of the block although an event may still be due"); }
          else if (v == "mul(256,next)" && !render) { t[Tw] = 3; if (!(t[Fresh] && t[A_] > PLAY)) viol("time", I, S, "moves a stream to the time of an event it has not reached"); }
          else if (!(v == "mul(256,0)" || v == "?")) viol("time", I, S, "moves a stream to " + v);
          else if (!render && !(t[Fresh] && t[A_] > PLAY)) viol("time", I, S, "moves a stream to " + v);
          else t[Tw] = 3;
          return true;
        }
        if (f == "s_eas_stream_tag.repeatCount") {
          obligations++;
          std::string v = norm(S, Sr->getValueOperand());
          t[RcW] = v == "add(-1,repeatCount)" && !t[RcW] ? 1 : 2;
          return true;
        }
        if (f == "s_eas_data_tag.renderTime" && render) {
          obligations++;
          t[Adv] = norm(S, Sr->getValueOperand()) == "add(" + std::to_string(frame) + ",renderTime)" && !t[Adv] ? 1 : 2;
          return true;
        }
        if (render && A.root == F->getArg(3) && A.steps.empty()) {
          auto *v = W.canon(S, Sr->getValueOperand());
          t[Gen] = W.isZero(S, v) ? 0 : v == W.canon(S, F->getArg(2)) || norm(S, v) == "arg2" ? 1 : 2;
          auto r = W.get(S, v), q = W.get(S, F->getArg(2));
          if (t[Gen] == 2 && r.isSingleElement() && r == q) t[Gen] = 1;
        }
        return true;
      }
      auto *C = dyn_cast<CallBase>(I);
      if (!C || isDbg(C) || isField0(C) || isa<IntrinsicInst>(C)) return true;
      if (isTime(C)) { t[Due] = 0; t[Tw] = t[Tw] == 2 ? 0 : t[Tw]; if (C->getType()->isIntegerTy()) W.refine(S, C, one(0, C->getType()->getIntegerBitWidth())); return true; }
      if (int o = op(C)) {
        if (o == oEvent) {
          obligations++;
          if (!(t[Fresh] && t[A_] <= PLAY)) viol("dispatch", I, S, "takes an event of a stream that does not play");
          else if (t[Due] != 1) viol("due", I, S, "takes an event that is not due in this block");
          t[Due] = 0, t[Fresh] = 0;
        }
        if (o == oReset && render) {
          obligations++;
          if (!(t[Fresh] && t[A_] == STOPPED)) viol("again", I, S, "starts a stream over that has not stopped");
          else if (t[Rc] != 2 && t[Rc] != 3) viol("again", I, S, "starts a stream over that has no repeat left");
          t[Rst] = 1; if (t[Tw] != 1) t[Tw] = 0;
        }
        if (o == oState) t[Seen] = 1, t[Fresh] = 1;
        if (o == oReset && locate && !t[Goal]) viol("same", I, S, "seeks without having looked where the stream is");
        bool r = apply(W, o, C, S, extra);
        if (o == oState) { S.ts[Fresh] = 1; for (auto &x : extra) x.ts[Fresh] = 1; }
        return r;
      }
      std::string c = calleeName(C);
      auto phase = [&](int from, int to, const char *what) {
        obligations++;
        if (t[Ph] != from) viol(std::string("order:") + what, I, S, std::string("calls ") + what + " out of order");
        t[Ph] = to;
      };
      if (render) {
        if (c == "EAS_MixEnginePrep") phase(0, 1, "EAS_MixEnginePrep");
        if (c == "VMRender") phase(1, 2, "VMRender");
        if (c == "EAS_PERender") { obligations++; if (t[Ph] != 2) viol("order:EAS_PERender", I, S, "calls EAS_PERender out of order"); }
        if (c == "EAS_MixEnginePost") phase(2, 3, "EAS_MixEnginePost");
      }
      return true;
    };
    W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
      auto &t = S.ts;
      // is an event due?
      if (auto *Br = dyn_cast<BranchInst>(from->getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
        const Value *c = Br->getCondition();
        bool truth = Br->getSuccessor(0) == to;
        while (auto *B = dyn_cast<BinaryOperator>(c)) {
          if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) truth = !truth, c = B->getOperand(0);
          else break;
        }
        if (auto *Ic = dyn_cast<ICmpInst>(c)) {
          std::string a = norm(S, Ic->getOperand(0)), b = norm(S, Ic->getOperand(1));
          auto p = Ic->getPredicate();
          if (b == "next") std::swap(a, b), p = ICmpInst::getSwappedPredicate(p);
          if (locate && p != ICmpInst::ICMP_SLT && p != ICmpInst::ICMP_SGE && Ic->isEquality() && (a == "shr(time,8)" || b == "shr(time,8)")) {
            t[Goal] = 1;
            target(Ic->getOperand(a == "shr(time,8)" ? 1 : 0), from->getTerminator(), S);
          }
          bool lim = b.substr(0, 4) == "shr(" && b.size() > 7 && b.substr(b.size() - 3) == ",8)" && endTime(b.substr(4, b.size() - 7));
          if (!lim && locate) lim = b == "target" || b == "arg2" || b.substr(0, 4) == "and(";
          if (!lim && !render && !locate) lim = b == std::to_string(2147483647l >> 8);
          if (a == "next" && lim) {
            if (p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_SLT) t[Due] = truth ? 1 : 2;
            else if (p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_SGE) t[Due] = truth ? 2 : 1;
            else t[Due] = 3;
          } else if (a == "next" && !W.isZero(S, Ic->getOperand(1))) { if (b != "0") t[Due] = 3; }
        }
      }
      if (locate && !t[Goal])
        for (auto &Ph : to->phis()) {
          if (!Ph.getType()->isIntegerTy(64)) continue;
          auto *v = Ph.getIncomingValueForBlock(from);
          auto got = alts(v, 12);
          auto off = W.get(S, F->getArg(3));
          auto no = [&](const char *m) { viol("offset", from->getTerminator(), S, m); };
          if (got.size() != 1) continue;
          obligations++;
          if (got.count("add(arg2,shr(time,8))") && off.contains(APInt(off.getBitWidth(), 0))) no("takes a time as an offset that is none");
          if (got.count("arg2") && !(off.isSingleElement() && off.getSingleElement()->isZero())) no("takes an offset as a time");
        }
      if (!render) return;
      Loop *Lf = fi.LI.getLoopFor(from), *Lt = fi.LI.getLoopFor(to);
      auto in = [](Loop *L, Loop *X) { for (; L; L = L->getParentLoop()) if (L == X) return true; return false; };
      const Instruction *I = from->getTerminator();
      if (to == L1->getHeader() && !in(Lf, L1)) fresh(S);
      for (auto *X : clearing) if (to == X->getHeader() && !in(Lf, X)) fresh(S);
      bool next = to == L1->getHeader() && in(Lf, L1);
      bool out = in(Lf, L1) && !in(Lt, L1);
      // leaving for good happens with a return
      auto returns = [&](const BasicBlock *B) {
        for (int k = 0; k < 6 && B; k++) { if (isa<ReturnInst>(B->getTerminator())) return true; B = B->getSingleSuccessor(); }
        return false;
      };
      if (next || (out && !returns(to) && from != L1->getHeader())) {
        obligations++;
        if (!t[Seen]) { if (!t[Pm] || !W.isZero(S, tab[t[Pm]])) viol("skipped", I, S, "passes over a stream that has a parser"); }
        else {
          if (t[FL] < 0 || !(t[FL] & 1)) viol("unparsed", I, S, "goes on although a stream has not been parsed to the end of the block");
          if (t[FL] >= 0 && (t[FL] & 4)) viol("located", I, S, "keeps a stream marked as being located");
          if (!t[Rc]) viol("repeat", I, S, "does not look whether the stream repeats");
          else if (t[Rc] == 1) { if (t[RcW]) viol("count", I, S, "counts repeats of a stream that has none"); }
          else if (!t[Rst]) {
            if (!t[Fresh] || t[A_] == STOPPED) viol("repeat", I, S, "does not start a stopped stream over although repeats are left");
            if (t[RcW]) viol("count", I, S, "counts a repeat that does not take place");
          } else {
            if (t[Rc] == 2 && t[RcW] != 1) viol("count", I, S, "does not count the repeat");
            if (t[Rc] == 3 && t[RcW]) viol("count", I, S, "counts down although it repeats for ever");
            if (t[Tw] != 1) viol("rewind", I, S, "starts a stream over but not its time");
          }
        }
        fresh(S);
      }
      for (auto *X : clearing) {
        bool nx = to == X->getHeader() && in(Lf, X), ex = in(Lf, X) && !in(Lt, X);
        if (!nx && !ex) continue;
        if (!(ex && from == X->getHeader() && X->getHeader() != X->getLoopLatch())) {
          obligations++;
          bool null = t[Pm] && W.isZero(S, tab[t[Pm]]);
          if (t[Ph] >= 2 && !null) {
            if (t[FL] < 0 || (t[FL] & 1)) viol("next", I, S, "leaves a stream marked as parsed for the next block");
            else if (t[Old] >= 0 && (t[FL] | 1) != (t[Old] | 1)) viol("next", I, S, "drops other marks of a stream");
          }
        }
        if (getenv("DBG")&&ex) errs()<<"turns "<<turns(fi,X)<<" "<<streams()<<"\n";
        if (ex && t[Ph] >= 2) t[Clr] = turns(fi, X) == streams() ? 1 : 0;
        fresh(S);
      }
    };
    W.ret = [&](const ReturnInst *Rt, WState &S) {
      paths++;
      auto &t = S.ts;
      CR rv = Rt->getReturnValue() ? W.get(S, Rt->getReturnValue()) : CR::getFull(64);
      bool ok = rv.contains(APInt(rv.getBitWidth(), 0));
      obligations++;
      if (render) {
        if (!ok) {
          if (t[Gen]) viol("failed", Rt, S, "fails but says it has generated sound");
          if (t[Adv]) viol("failed", Rt, S, "fails but moves the clock");
          return;
        }
        if (t[Ph] < 2) {
          if (t[Gen] || t[Adv]) viol("abort", Rt, S, "breaks off but says it has generated sound");
          if (!t[Seen] || t[FL] < 0 || (t[FL] & 1)) viol("silent", Rt, S, "succeeds without rendering although nothing stopped it");
          return;
        }
        if (t[Ph] != 3) viol("post", Rt, S, "succeeds without finishing the block");
        if (t[Gen] != 1) viol("generated", Rt, S, "does not say how much it has generated");
        if (t[Adv] != 1) viol("clock", Rt, S, "does not move the clock by the length of a block");
        if (!t[Clr]) viol("next", Rt, S, "leaves streams marked as parsed for the next block");
        return;
      }
      if (!ok || !t[DRs]) return;
      if (locate && !t[Tw]) viol("stale", Rt, S, "rewinds the stream but not its time");
      if (locate && t[FL] >= 0 && (t[FL] & 1) && t[Tw] != 2 && t[Tw] != 3) viol("time", Rt, S, "does not move the stream to where it was located");
      if (!locate && t[Tw] != 1) viol("time", Rt, S, "leaves the stream at a time other than its beginning");
    };
    W.run(init);
    if (W.overflow) R.note("merged", n);
  }

  // what is told about the time
  void told(const char *name, unsigned arg, const std::string &want) {
    auto *F = P.M->getFunction(name);
    if (!F || F->isDeclaration()) { R.broken.push_back(std::string(name) + " is not there"); return; }
    R.note("functions", name);
    Walk W(P, *F, MR);
    WState init;
    init.ts.assign(1, 0);
    cases++;
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
      auto *Sr = dyn_cast<StoreInst>(I);
      if (!Sr) return true;
      Addr A = decompose(Sr->getPointerOperand());
      auto leaf = [&](const Value *v) -> std::string {
        if (auto *L = dyn_cast<LoadInst>(v)) {
          std::string f = decompose(L->getPointerOperand()).field(P);
          if (f.find('.') != std::string::npos) return f.substr(f.find('.') + 1);
        }
        if (auto *G = dyn_cast<Argument>(v)) return "arg" + std::to_string(G->getArgNo());
        return "";
      };
      bool mine = want.find("arg") != std::string::npos ? A.field(P) == "s_eas_stream_tag.frameLength" : A.root == F->getArg(arg) && A.steps.empty();
      if (!mine) return true;
      obligations++;
      std::string v = Norm{W, S, leaf}.str(Sr->getValueOperand());
      S.ts[0] = v == want ? 1 : 2;
      if (v != want) R.add(std::string(name) + ":value", loc(I), std::string(name) + " gives " + v + " instead of " + want, Walk::path(S));
      return true;
    };
    W.ret = [&](const ReturnInst *Rt, WState &S) {
      CR rv = Rt->getReturnValue() ? W.get(S, Rt->getReturnValue()) : CR::getFull(64);
      obligations++;
      if (rv.isSingleElement() && rv.getSingleElement()->isZero() && !S.ts[0]) R.add(std::string(name) + ":none", loc(Rt), std::string(name) + " succeeds without a value", Walk::path(S));
    };
    W.run(init);
  }
  // the length of a block, in 1/256 ms, follows from its size and the sampling rate
  void length() {
    long size = 0, rate = 0;
    auto *F = P.M->getFunction("EAS_Config");
    const GlobalVariable *G = nullptr;
    if (F) for (auto &I : instructions(F)) if (auto *Rt = dyn_cast<ReturnInst>(&I)) G = dyn_cast_or_null<GlobalVariable>(stripCasts(Rt->getReturnValue()));
    auto *T = G ? dyn_cast<StructType>(G->getValueType()) : nullptr;
    if (T && G->hasInitializer())
      for (unsigned i = 0; i < T->getNumElements(); i++) {
        std::string f = fieldName(P, structName(T), i, T);
        auto *K = dyn_cast_or_null<ConstantInt>(G->getInitializer()->getAggregateElement(i));
        if (!K) continue;
        if (f.find("mixBufferSize") != std::string::npos) size = K->getSExtValue();
        if (f.find("sampleRate") != std::string::npos) rate = K->getSExtValue();
      }
    if (!size || !rate) { R.broken.push_back("no configuration of block size and sampling rate"); return; }
    frame = size * 256000 / rate;
    R.stats["block_256ths_ms"] = frame;
    // a new stream plays at that rate
    bool seen = false;
    for (auto &Fn : *P.M)
      for (auto &I : instructions(Fn)) {
        auto *S = dyn_cast<StoreInst>(&I);
        if (!S || decompose(S->getPointerOperand()).field(P) != "s_eas_stream_tag.frameLength") continue;
        if (Fn.getName() == "EAS_SetPlaybackRate") continue;
        obligations++;
        seen = true;
        auto *K = dyn_cast<ConstantInt>(S->getValueOperand());
        if (!K || K->getSExtValue() != frame) R.add("start:" + Fn.getName().str(), loc(S), Fn.getName().str() + " starts a stream with another length of a block");
      }
    if (!seen) R.add("start:none", "", "no stream starts with the length of a block");
  }
};

void clock(Ctx &C, Report &R) {
  Clock X(C, R);
  if (X.iface.empty()) { R.broken.push_back("no table of parser functions"); return; }
  X.length();
  for (auto *n : {"EAS_Render", "EAS_Locate", "EAS_ParseMetaData"}) X.loops(n);
  X.told("EAS_GetLocation", 2, "shr(time,8)");
  X.told("EAS_GetRenderTime", 1, "shr(renderTime,8)");
  X.told("EAS_SetPlaybackRate", 2, "shr(mul(" + std::to_string(X.frame) + ",shr(arg2,8)),20)");
  R.stats["cases"] = X.cases;
  R.stats["obligations"] = X.obligations;
  R.stats["paths"] = X.paths;
}
NormOpts copts() {
  NormOpts o;
  o.into = {"EAS_Render", "EAS_Locate", "EAS_ParseMetaData", "EAS_GetLocation", "EAS_GetRenderTime", "EAS_SetPlaybackRate"};
  o.keep = {"VMRender", "EAS_MixEnginePrep", "EAS_PERender", "EAS_MixEnginePost", "VMInitWorkload", "VMCheckWorkload", "EAS_HWYield", "EAS_SetStreamParameter"};
  return o;
}
Reg reg3("clock", clock, copts());

void state(Ctx &C, Report &R) {
  States X(C, R);
  if (X.iface.empty()) { R.broken.push_back("no table of parser functions"); return; }
  for (auto *F : X.targets("pfState")) X.parser(F);
  X.census();
  for (auto *n : {"EAS_Prepare", "EAS_Pause", "EAS_Resume", "EAS_Locate", "EAS_ParseMetaData", "EAS_GetLocation", "EAS_State"}) X.api(n);
  for (auto *n : {"EAS_SetTransposition", "EAS_RegisterMetaDataCallback", "EAS_GetNoteCount", "EAS_SetPolyphony", "EAS_GetPolyphony", "EAS_SetPriority", "EAS_GetPriority", "EAS_SetVolume", "EAS_SetMaxPCMStreams", "EAS_LoadDLSCollection"}) X.api(n, true);
  R.stats["cases"] = X.cases;
  R.stats["obligations"] = X.obligations;
  R.stats["paths"] = X.paths;
}
NormOpts sopts() {
  NormOpts o;
  o.into = {"SMF_State", "TC_State", "EAS_Prepare", "EAS_Pause", "EAS_Resume", "EAS_Locate", "EAS_ParseMetaData", "EAS_GetLocation", "EAS_State", "EAS_SetTransposition", "EAS_RegisterMetaDataCallback", "EAS_GetNoteCount", "EAS_SetPolyphony", "EAS_GetPolyphony", "EAS_SetPriority", "EAS_GetPriority", "EAS_SetVolume", "EAS_SetMaxPCMStreams", "EAS_LoadDLSCollection"};
  o.keep = {"VMMuteAllVoices", "VMReleaseAllVoices", "EAS_ParseMIDIStream"};
  return o;
}
Reg reg("state", state, sopts());
} // namespace life
} // namespace
