// What a synthesizer is after a reset, and what of a file's playing state a rewind restores.
#include "iter.h"
#include "llvm/ADT/PostOrderIterator.h"

namespace {
// the constants a function leaves in the object one of its parameters points to
struct Final {
  Program &P;
  const Function &F;
  const Value *base;
  const DataLayout &DL;
  using Mem = std::map<uint64_t, std::pair<unsigned, const Value *>>; // offset -> size, value (null: not a known value)
  std::map<const BasicBlock *, Mem> out;
  std::function<void(const CallBase *, Mem &)> call;
  std::string problem;
  Final(Program &P, const Function &F, const Value *b) : P(P), F(F), base(b), DL(P.DL()) {}
  std::optional<uint64_t> off(const Value *p, bool &mine) {
    mine = false;
    APInt o(64, 0);
    auto *r = p->stripAndAccumulateConstantOffsets(DL, o, true);
    while (isField0(r)) r = cast<CallBase>(r)->getArgOperand(0)->stripAndAccumulateConstantOffsets(DL, o, true);
    if (r == base) { mine = true; return o.getZExtValue(); }
    // a variable place in the object?
    std::set<const Value *> seen;
    std::function<bool(const Value *)> from = [&](const Value *v) -> bool {
      if (v == base) return true;
      if (!seen.insert(v).second) return false;
      if (auto *G = dyn_cast<GEPOperator>(v)) return from(G->getPointerOperand());
      if (auto *Ph = dyn_cast<PHINode>(v)) { for (auto &x : Ph->incoming_values()) if (from(x)) return true; return false; }
      if (auto *S = dyn_cast<SelectInst>(v)) return from(S->getTrueValue()) || from(S->getFalseValue());
      if (isField0(v)) return from(cast<CallBase>(v)->getArgOperand(0));
      return false;
    };
    mine = from(p);
    return {};
  }
  static void put(Mem &m, uint64_t o, unsigned n, const Value *v) {
    for (auto it = m.begin(); it != m.end();) it = it->first < o + n && o < it->first + it->second.first && !(it->first == o && it->second.first == n) ? m.erase(it) : std::next(it);
    m[o] = {n, v};
  }
  // bytes of a constant
  static std::optional<uint64_t> num(const Mem &m, uint64_t o, unsigned n) {
    auto it = m.upper_bound(o);
    if (it == m.begin()) return {};
    --it;
    if (it->first > o || it->first + it->second.first < o + n || !it->second.second) return {};
    auto *v = it->second.second;
    APInt k;
    if (auto *K = dyn_cast<ConstantInt>(v)) k = K->getValue();
    else if (isa<ConstantPointerNull>(v) || isa<ConstantAggregateZero>(v)) return 0;
    else return {};
    if (it->second.first > 8) return k.isZero() ? std::optional<uint64_t>(0) : std::nullopt;
    return k.zextOrTrunc(64).lshr(8 * (o - it->first)).getLoBits(8 * n).getZExtValue();
  }
  Mem run(const Mem &init) {
    ReversePostOrderTraversal<const Function *> rpo(&F);
    Mem res;
    bool first = true;
    for (auto *B : rpo) {
      Mem m;
      bool got = false;
      if (B == &F.getEntryBlock()) m = init, got = true;
      for (auto *Pd : predecessors(B)) {
        auto it = out.find(Pd);
        if (it == out.end()) { problem = "a loop whose number of turns is not known"; continue; }
        if (!got) { m = it->second; got = true; continue; }
        join(m, it->second);
      }
      for (auto &I : *B) {
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          bool mine;
          auto o = off(St->getPointerOperand(), mine);
          unsigned n = DL.getTypeStoreSize(St->getValueOperand()->getType());
          if (!mine) continue;
          if (!o) { for (auto &e : m) e.second.second = nullptr; continue; }
          auto *v = St->getValueOperand();
          std::optional<uint64_t> k = value(v, m);
          put(m, *o, n, k ? (const Value *)ConstantInt::get(IntegerType::get(F.getContext(), n * 8), *k) : isa<ConstantAggregateZero>(v) || isa<ConstantPointerNull>(v) ? (const Value *)ConstantInt::get(Type::getInt8Ty(F.getContext()), 0) : (v->getType()->isIntegerTy() ? nullptr : v));
          continue;
        }
        if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isIntegerTy()) {
          bool mine;
          auto o = off(L->getPointerOperand(), mine);
          if (mine && o) held[L] = num(m, *o, DL.getTypeStoreSize(L->getType()));
          continue;
        }
        auto *Cl = dyn_cast<CallBase>(&I);
        if (!Cl || isDbg(&I)) continue;
        std::string nm = calleeName(Cl);
        const Value *dst = nullptr, *val = nullptr, *len = nullptr;
        if (auto *MS = dyn_cast<MemSetInst>(Cl)) dst = MS->getDest(), val = MS->getValue(), len = MS->getLength();
        else if (nm == "EAS_HWMemSet" && Cl->arg_size() == 3) dst = Cl->getArgOperand(0), val = Cl->getArgOperand(1), len = Cl->getArgOperand(2);
        if (dst) {
          bool mine;
          auto o = off(dst, mine);
          auto *v = dyn_cast<ConstantInt>(val), *n = dyn_cast<ConstantInt>(len);
          if (mine && o && v && n && v->isZero()) put(m, *o, n->getZExtValue(), ConstantInt::get(Type::getInt8Ty(F.getContext()), 0));
          else if (mine) for (auto &e : m) e.second.second = nullptr;
          continue;
        }
        if (call) call(Cl, m);
      }
      if (isa<ReturnInst>(B->getTerminator())) { if (first) res = m, first = false; else join(res, m); }
      out[B] = std::move(m);
    }
    return res;
  }
  static void join(Mem &m, const Mem &o) {
    for (auto &e : m) {
      auto a = num(m, e.first, std::min(8u, e.second.first)), b = num(o, e.first, std::min(8u, e.second.first));
      auto j = o.find(e.first);
      bool sameV = j != o.end() && j->second == e.second;
      if (!sameV && !(a && b && *a == *b && e.second.first <= 8)) e.second.second = nullptr;
    }
  }
  // value of an expression over what the object is known to hold
  std::optional<uint64_t> value(const Value *v, const Mem &m, int depth = 8) {
    std::map<const Value *, APInt> k;
    std::function<void(const Value *, int)> loads = [&](const Value *x, int d) {
      if (auto *L = dyn_cast<LoadInst>(x); L && L->getType()->isIntegerTy()) {
        bool mine;
        auto o = off(L->getPointerOperand(), mine);
        unsigned n = DL.getTypeStoreSize(L->getType());
        (void)n;
        if (mine && o && held.count(L)) if (auto q = held[L]) k.insert_or_assign(L, APInt(L->getType()->getIntegerBitWidth(), *q));
        return;
      }
      auto *I = dyn_cast<Instruction>(x);
      if (!I || !d || isa<PHINode>(I) || isa<CallBase>(I)) return;
      for (auto &op : I->operands()) loads(op, d - 1);
    };
    loads(v, depth);
    auto r = fold(v, k);
    if (!r || r->getBitWidth() > 64) return {};
    return r->getZExtValue();
  }
  std::map<const LoadInst *, std::optional<uint64_t>> held;
};

struct Reset {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  long obligations = 0;
  Reset(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P) {}
  uint64_t ofs(const std::string &st, const std::string &f) {
    auto it = P.memberOfs.find(st);
    if (it == P.memberOfs.end() || !it->second.count(f)) { R.broken.push_back("no field " + st + "." + f); return 1 << 20; }
    return it->second[f];
  }
  struct Want { const char *f; unsigned n; long v; const char *what; };

  void decoder() {
    auto *F = P.M->getFunction("EAS_InitMIDIStream");
    if (!F || F->isDeclaration() || !F->arg_size()) { R.broken.push_back("EAS_InitMIDIStream is not there"); return; }
    unrollFully(*F);
    Final X(P, *F, F->getArg(0));
    auto m = X.run({});
    for (auto &w : {Want{"pending", 1, 0, "an unfinished message"}, Want{"runningStatus", 1, 0, "the running status"}, Want{"status", 1, 0, "the message in progress"}, Want{"byte3", 1, 0, "which byte comes next"}, Want{"flags", 1, 0, "what the last pass has seen"}}) {
      obligations++;
      auto v = Final::num(m, ofs("s_midi_stream_tag", w.f), w.n);
      if (!v || *v != (uint64_t)w.v) R.add(std::string("decoder:") + w.f, locF(F), std::string("a restarted decoder keeps ") + w.what);
    }
  }

  void channels() {
    auto *F = P.M->getFunction("VMInitializeAllChannels");
    if (!F || F->isDeclaration() || F->arg_size() < 2) { R.broken.push_back("VMInitializeAllChannels is not there"); return; }
    unrollFully(*F);
    Final X(P, *F, F->getArg(1));
    auto *ST = structByName(P, "s_synth_channel_tag");
    if (!ST) { R.broken.push_back("no channel structure"); return; }
    uint64_t base = ofs("s_synth_tag", "channels"), sz = P.DL().getTypeAllocSize(const_cast<StructType *>(ST));
    auto at = [&](unsigned ch, const char *f) { return base + ch * sz + ofs("s_synth_channel_tag", f); };
    std::map<unsigned, unsigned> prog;
    X.call = [&](const CallBase *B, Final::Mem &m) {
      std::string n = calleeName(B);
      if (n == "VMProgramChange" && B->arg_size() == 4) {
        auto *ch = dyn_cast<ConstantInt>(B->getArgOperand(2)), *pr = dyn_cast<ConstantInt>(B->getArgOperand(3));
        obligations++;
        if (B->getArgOperand(1) != F->getArg(1)) return;
        if (!ch || ch->getZExtValue() > 15) { for (auto &e : m) e.second.second = nullptr; return; }
        unsigned c = ch->getZExtValue();
        prog[c]++;
        if (!pr || !pr->isZero()) R.add("channels:program", loc(B), "a channel does not go back to program 0");
        auto b = Final::num(m, at(c, "bankNum"), 2);
        if (!b || *b != (c == 9 ? 0x7800 : 0x7900)) R.add("channels:bank", loc(B), "a channel does not go back to its default bank before its program is chosen (channel " + std::to_string(c + 1) + ")");
        auto f = Final::num(m, at(c, "channelFlags"), 1);
        if (!f || (*f & ~0xcu) || (c != 9 && *f & 8)) R.add("channels:flags", loc(B), "a channel keeps its pedal, mute or rhythm state (channel " + std::to_string(c + 1) + ")");
        // the program change adds the rhythm flag of its bank and asks for an update
        Final::put(m, at(c, "channelFlags"), 1, ConstantInt::get(Type::getInt8Ty(F->getContext()), 4 | (c == 9 ? 8 : 0)));
        Final::put(m, at(c, "programNum"), 1, ConstantInt::get(Type::getInt8Ty(F->getContext()), 0));
        return;
      }
      // anything else that may write the synthesizer
      bool mine = false;
      for (auto &a : B->args()) if (a->getType()->isPointerTy()) { bool mm; X.off(a, mm); mine |= mm; }
      if (!mine || B->onlyReadsMemory()) return;
      for (auto &e : m) e.second.second = nullptr;
    };
    auto m = X.run({});
    if (!X.problem.empty()) R.add("channels:loop", locF(F), "the channels are reset by " + X.problem);
    for (unsigned c = 0; c < 16; c++) {
      if (prog[c] == 0) R.add("channels:program", locF(F), "no program is chosen for channel " + std::to_string(c + 1));
      for (auto &w : {Want{"pitchBend", 2, 0x2000, "its pitch bend"}, Want{"modWheel", 1, 0, "its modulation"}, Want{"volume", 1, 100, "its volume"}, Want{"pan", 1, 64, "its pan"}, Want{"expression", 1, 127, "its expression"},
                      Want{"channelPressure", 1, 0, "its pressure"}, Want{"registeredParam", 2, 0x3fff, "the selected parameter"}, Want{"pitchBendSensitivity", 2, 200, "its bend range"}, Want{"finePitch", 1, 0, "its fine tuning"},
                      Want{"coarsePitch", 1, 0, "its coarse tuning"}, Want{"pool", 1, 0, "its voice pool"}, Want{"bankNum", 2, c == 9 ? 0x7800 : 0x7900, "its bank"}, Want{"programNum", 1, 0, "its program"}, Want{"channelFlags", 1, c == 9 ? 12 : 4, "its pedal, mute or rhythm state"}}) {
        obligations++;
        auto v = Final::num(m, at(c, w.f), w.n);
        if (!v || *v != (uint64_t)w.v) R.add(std::string("channels:") + w.f, locF(F), std::string("a reset channel does not get back ") + w.what + " (channel " + std::to_string(c + 1) + ")");
      }
    }
    R.note("channels", "16");
  }

  void synth() {
    auto *F = P.M->getFunction("VMReset");
    if (!F || F->isDeclaration() || F->arg_size() < 3) { R.broken.push_back("VMReset is not there"); return; }
    FnInfo fi(*F);
    for (int force = 0; force < 2; force++) {
      enum { Voices, Zeroed, Muted, Chan, Pools, Alloc, Clear, Set, N };
      Walk W(P, *F, MR);
      W.maxStates = 40;
      WState init;
      init.ts.assign(N, 0);
      CR z(APInt::getZero(Walk::bits(F->getArg(2))));
      if (!W.refine(init, F->getArg(2), force ? z.inverse() : z)) continue;
      std::string nm = force ? "a forced reset" : "a reset";
      auto bad = [&](const char *k, const Instruction *I, WState &S, const std::string &m) { R.add(std::string("synth:") + k, loc(I), nm + " " + m, Walk::path(S)); };
      std::set<const LoadInst *> act;
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
        auto &t = S.ts;
        auto pools = [&](const Value *d, const Value *v, const Value *n) {
          auto *K = dyn_cast<ConstantInt>(n);
          if (decompose(d).field(P) != "s_synth_tag.poolCount") return;
          obligations++;
          if (!W.isZero(S, v)) bad("pools", I, S, "leaves a count of voices in use");
          else if (!K || K->getZExtValue() < ofs("s_synth_tag", "poolAlloc") - ofs("s_synth_tag", "poolCount")) bad("pools", I, S, "does not clear the count of every voice pool");
          t[Pools] = 1;
        };
        if (auto *B = dyn_cast<CallBase>(I)) {
          std::string n = calleeName(B);
          if (n == "VMInitializeAllVoices") {
            auto *Ld = dyn_cast<LoadInst>(stripCasts(B->getArgOperand(1)));
            obligations++;
            if (!Ld || decompose(Ld->getPointerOperand()).field(P) != "s_synth_tag.vSynthNum") bad("voices", I, S, "clears the voices of another synthesizer");
            if (!force) bad("voices", I, S, "cuts off its voices");
            t[Voices] = 1;
          }
          if (n == "VMMuteAllVoices") t[Muted] = 1;
          if (n == "VMInitializeAllChannels") t[Chan] = 1;
          if (auto *MS = dyn_cast<MemSetInst>(B)) { pools(MS->getDest(), MS->getValue(), MS->getLength()); }
          else if (n == "EAS_HWMemSet" && B->arg_size() == 3) pools(B->getArgOperand(0), B->getArgOperand(1), B->getArgOperand(2));
          return true;
        }
        auto *St = dyn_cast<StoreInst>(I);
        if (!St) return true;
        Addr A = decompose(St->getPointerOperand());
        std::string f = A.field(P);
        auto *v = St->getValueOperand();
        if (f == "s_synth_tag.numActiveVoices") t[Zeroed] = W.isZero(S, v);
        if (f == "s_synth_tag.poolAlloc") t[Alloc] = 1;
        if (f == "s_synth_tag.poolCount") {
          obligations++;
          if (!W.isZero(S, v)) { bad("pools", I, S, "leaves a count of voices in use"); return true; }
          auto *L = fi.loopOf(I);
          const Value *iv = nullptr;
          for (auto &s : A.steps) if (s.k == Step::Index && s.var) iv = s.var;
          auto *AR = iv && L ? dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(iv))) : nullptr;
          unsigned tc = 0;
          if (L) { SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex); for (auto *E : ex) tc = std::max(tc, fi.SE.getSmallConstantTripCount(L, E)); }
          // a loop that is left at its head runs its body one time less
          unsigned turns = tc;
          if (L && tc) { SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex); if (ex.size() == 1 && ex[0] == L->getHeader() && I->getParent() != L->getHeader()) turns = tc - 1; }
          bool all = false;
          if (AR && AR->getLoop() == L) {
            auto *s0 = dyn_cast<SCEVConstant>(AR->getStart()), *st = dyn_cast<SCEVConstant>(AR->getStepRecurrence(fi.SE));
            if (s0 && st) {
              long a = s0->getAPInt().getSExtValue(), d = st->getAPInt().getSExtValue();
              all = turns >= 16 && ((d == 1 && a == 0) || (d == -1 && a == 15));
            }
          }
          if (!all) bad("pools", I, S, "does not clear the count of every voice pool");
          t[Pools] = 1;
        }
        if (f == "s_synth_tag.synthFlags") {
          Syms sy;
          Bits b = sy.eval(W, S, v).zext(8);
          if (b.b[0] == Bits::num(8, 0).b[0]) t[Clear] = 1, t[Set] = 0;
          else if (b.b[0] == Bits::num(8, 1).b[0]) t[Set] = 1, t[Clear] = 0;
          else bad("flag", I, S, "leaves unsaid whether another reset is to follow");
        }
        return true;
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) {
        auto &t = S.ts;
        obligations += 6;
        if (force && !t[Voices]) bad("voices", Rt, S, "does not stop its voices");
        if (force && !t[Zeroed]) bad("voices", Rt, S, "leaves voices counted as active");
        if (!force && !t[Muted]) bad("voices", Rt, S, "does not mute its voices");
        if (force && !t[Chan]) bad("channels", Rt, S, "does not reset the channels");
        if (t[Chan]) {
          bool none = t[Zeroed];
          for (auto &f : S.fact) if (auto *Ld = dyn_cast<LoadInst>(f.first); Ld && decompose(Ld->getPointerOperand()).field(P) == "s_synth_tag.numActiveVoices" && W.isZero(S, Ld)) none = true;
          if (!none) bad("channels", Rt, S, "resets the channels while voices are still playing");
          if (!t[Pools]) bad("pools", Rt, S, "does not clear the counts of the voice pools");
          if (!t[Alloc]) bad("pools", Rt, S, "does not give all voices to the first pool");
          if (!t[Clear]) bad("flag", Rt, S, "is repeated although it is complete");
        } else if (!t[Set]) bad("flag", Rt, S, "is forgotten while voices are still playing");
      };
      W.run(init);
    }
  }

  void fresh() {
    auto *F = P.M->getFunction("VMInitMIDI");
    if (!F || F->isDeclaration() || F->arg_size() < 2) { R.broken.push_back("VMInitMIDI is not there"); return; }
    Walk W(P, *F, MR);
    W.maxStates = 40;
    const char *names[] = {"zeroed", "refCount", "synthFlags", "masterVolume", "priority", "poolAlloc", "channels", "vSynthNum", "pSynth"};
    enum { Zero, Ref, Flags, Master, Prio, Alloc, Chan, Num, Listed, N };
    WState init;
    init.ts.assign(N, 0);
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
      auto &t = S.ts;
      if (auto *B = dyn_cast<CallBase>(I)) {
        std::string n = calleeName(B);
        if (n == "EAS_HWMemSet" || isa<MemSetInst>(B)) { t[Zero] = 1; t[Ref] = t[Flags] = t[Master] = t[Prio] = t[Alloc] = t[Num] = t[Chan] = 0; }
        if (n == "VMInitializeAllChannels") t[Chan] = 1;
        return true;
      }
      auto *St = dyn_cast<StoreInst>(I);
      if (!St) return true;
      std::string f = decompose(St->getPointerOperand()).field(P);
      auto r = W.tracked(St->getValueOperand()) ? W.get(S, St->getValueOperand()) : CR::getFull(8);
      auto is = [&](uint64_t k) { return r.isSingleElement() && *r.getSingleElement() == k; };
      if (f == "s_synth_tag.refCount") t[Ref] = is(1);
      if (f == "s_synth_tag.synthFlags") t[Flags] = is(4);
      if (f == "s_synth_tag.masterVolume") t[Master] = is(0x7fff);
      if (f == "s_synth_tag.priority") t[Prio] = is(5);
      if (f == "s_synth_tag.poolAlloc") t[Alloc] = 1;
      if (f == "s_synth_tag.vSynthNum") t[Num] = 1;
      if (f == "s_voice_mgr_tag.pSynth") t[Listed] = !W.isZero(S, St->getValueOperand());
      return true;
    };
    W.ret = [&](const ReturnInst *Rt, WState &S) {
      if (!Rt->getReturnValue() || !W.isZero(S, Rt->getReturnValue())) return;
      for (int i = 0; i < N; i++) {
        obligations++;
        if (!S.ts[i]) R.add(std::string("new:") + names[i], loc(Rt), std::string("a new synthesizer does not start from its defaults (") + names[i] + ")", Walk::path(S));
      }
    };
    W.run(init);
  }
};

void reset(Ctx &C, Report &R) {
  Reset X(C, R);
  X.synth();
  X.fresh();
  X.decoder();
  X.channels();
  R.stats["obligations"] = X.obligations;
}
NormOpts ropts() {
  NormOpts o;
  o.into = {"VMReset", "VMInitMIDI", "EAS_InitMIDIStream", "VMInitializeAllChannels"};
  o.keep = {"VMProgramChange", "VMInitializeAllVoices", "VMMuteAllVoices", "VMInitializeAllChannels", "VMRetargetStolenVoice", "VMFreeVoice", "EAS_HWMemSet", "EAS_HWMalloc", "VMSetEASLib", "VMMIDIShutdown", "DLSAddRef", "EAS_CMEnumData",
            "VMReset", "VMInitMIDI", "EAS_InitMIDIStream"};
  return o;
}
Reg reg("reset", reset, ropts());
} // namespace
