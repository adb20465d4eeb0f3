// Which voices a note-off, the pedal and the channel modes end; which region a note starts; which program a channel gets.
// Each function is walked once per case of the conditions the specification names (is it this voice's channel, its note,
// is the pedal down ..); what a path does in one turn of its loop over the voices, regions or programs is compared with the table.
#include "iter.h"

namespace {
// addresses as linear forms over the parameters, whatever pointers and indices the code keeps
struct Places {
  Program &P;
  const Function &F;
  FnInfo fi;
  std::map<const Value *, const SCEV *> memo;
  Places(Program &P, const Function &F) : P(P), F(F), fi(F) { for (auto *L : fi.loops()) (void)fi.SE.getBackedgeTakenCount(L); }
  const SCEV *addr(const Value *p) {
    auto it = memo.find(p);
    if (it != memo.end()) return it->second;
    auto &SE = fi.SE;
    const SCEV *s = SE.getSCEV(const_cast<Value *>(p));
    for (int n = 0; n < 12; n++) { // calls that stand for the first field
      ValueToSCEVMapTy m;
      struct V {
        ValueToSCEVMapTy &m; ScalarEvolution &SE;
        bool follow(const SCEV *x) { if (auto *U = dyn_cast<SCEVUnknown>(x); U && isField0(U->getValue())) m[U->getValue()] = SE.getSCEV(cast<CallBase>(U->getValue())->getArgOperand(0)); return true; }
        bool isDone() { return false; }
      } v{m, SE};
      visitAll(s, v);
      if (m.empty()) break;
      s = SCEVParameterRewriter::rewrite(s, SE, m);
    }
    return memo[p] = s;
  }
  uint64_t ofs(const std::string &st, const std::string &f) const {
    auto it = P.memberOfs.find(st);
    return it == P.memberOfs.end() || !it->second.count(f) ? 1 << 24 : it->second.at(f);
  }
  uint64_t size(const std::string &st) const { auto *T = structByName(P, st); return T ? P.DL().getTypeAllocSize(const_cast<StructType *>(T)).getFixedValue() : 1; }
  std::string member(const std::string &st, uint64_t o) const {
    auto it = P.members.find(st);
    if (it == P.members.end()) return "";
    auto m = it->second.find(o);
    return m == it->second.end() ? "" : m->second;
  }
};

struct Pairs { // two sets of bits that are compared with each other
  std::set<std::pair<long, long>> s;
  static std::pair<long, long> of(long a, long b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
};

// one case: what the named conditions are
struct Case {
  std::map<long, int> bit;                 // bit of an input -> 0, 1
  std::map<std::string, bool> eq;          // atom -> does it hold
  int pedal = -1;                          // is the pedal of the voice's own channel down (bit 0 of its flags)
  std::string text;
};

struct VoiceLoop : Places {
  Report &R;
  ModRef &MR;
  Syms sy;
  const Function &F;
  std::string key, what;
  Loop *L = nullptr;
  std::map<const Value *, std::string> nm;      // pointer -> name
  std::map<std::string, const Value *> first;   // name -> the value that stands for it
  std::map<std::string, Pairs> atoms;
  std::map<std::string, int> ids;
  std::vector<std::string> words{""};
  long obligations = 0, turns = 0;
  unsigned mgr = 0, syn = 1, ch = 2, note = 99;
  VoiceLoop(Program &P, Report &R, ModRef &MR, const Function &f, const std::string &key, const std::string &what) : Places(P, f), R(R), MR(MR), F(f), key(key), what(what) {}
  int intern(const std::string &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; words.push_back(s); return ids[s] = words.size() - 1; }

  // v.<field>: the voice of this turn; c.<field>: the channel; y.<field>: the synthesizer
  std::string name(const Value *p) {
    auto &SE = fi.SE;
    auto *s = addr(p);
    auto minus = [&](unsigned k) -> const SCEV * { auto *d = SE.getMinusSCEV(s, SE.getSCEV(F.getArg(k))); return isa<SCEVCouldNotCompute>(d) ? nullptr : d; };
    if (auto *d = minus(mgr)) {
      uint64_t v0 = ofs("s_voice_mgr_tag", "voices"), sz = size("s_synth_voice_tag");
      if (auto *AR = dyn_cast<SCEVAddRecExpr>(d); AR && AR->isAffine()) {
        auto *a = dyn_cast<SCEVConstant>(AR->getStart()), *st = dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE));
        if (a && st) {
          long at = a->getAPInt().getSExtValue() - (long)v0, d = st->getAPInt().getSExtValue();
          long top = 63 * (long)sz;
          bool up = d == (long)sz && at >= 0 && at < (long)sz, down = d == -(long)sz && at >= top && at < top + (long)sz;
          if (up || down) { if (!L) L = const_cast<Loop *>(AR->getLoop()); if (L == AR->getLoop()) return "v." + member("s_synth_voice_tag", up ? at : at - top); }
        }
      }
      Addr A = decompose(p); // the number narrower than an address
      if (A.root == F.getArg(mgr) && A.steps.size() >= 2 && A.steps[0].k == Step::Field && fieldName(P, A.steps[0].st, A.steps[0].idx) == "voices") {
        const Value *v = nullptr;
        std::string f;
        for (auto &st : A.steps) if (st.k == Step::Index && st.var && !isa<ConstantInt>(st.var)) { if (v) return ""; v = st.var; } else if (st.k == Step::Field && v) f = fieldName(P, st.st, st.idx);
        while (v && isa<CastInst>(v)) v = cast<CastInst>(v)->getOperand(0);
        auto *AR = v ? dyn_cast<SCEVAddRecExpr>(SE.getSCEV(const_cast<Value *>(v))) : nullptr;
        auto *a = AR && AR->isAffine() ? dyn_cast<SCEVConstant>(AR->getStart()) : nullptr, *d = a ? dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE)) : nullptr;
        if (d && f.empty()) f = member("s_synth_voice_tag", 0);
        if (d) {
          long x = a->getAPInt().getSExtValue(), k = d->getAPInt().getSExtValue();
          if ((x == 0 && k == 1) || (x == 63 && k == -1)) { if (!L) L = const_cast<Loop *>(AR->getLoop()); if (L == AR->getLoop()) return "v." + f; }
        }
      }
      return "";
    }
    if (auto *d = minus(syn)) {
      if (auto *c = dyn_cast<SCEVConstant>(d)) { std::string m = member("s_synth_tag", c->getAPInt().getZExtValue()); return m.empty() || m == "channels" ? "" : "y." + m; }
      if (ch < F.arg_size()) {
        auto *ix = SE.getMulExpr(SE.getZeroExtendExpr(SE.getSCEV(F.getArg(ch)), d->getType()), SE.getConstant(d->getType(), size("s_synth_channel_tag")));
        if (auto *c = dyn_cast<SCEVConstant>(SE.getMinusSCEV(d, ix))) {
          long o = c->getAPInt().getSExtValue() - (long)ofs("s_synth_tag", "channels");
          if (o >= 0 && o < (long)size("s_synth_channel_tag")) return "c." + member("s_synth_channel_tag", o);
        }
      }
    }
    return "";
  }
  bool prepare() {
    for (const Instruction &I : instructions(F)) {
      const Value *p = nullptr;
      if (auto *X = dyn_cast<LoadInst>(&I)) p = X->getPointerOperand();
      if (auto *X = dyn_cast<StoreInst>(&I)) p = X->getPointerOperand();
      if (!p || nm.count(p)) continue;
      nm[p] = name(p);
      if (auto *X = dyn_cast<LoadInst>(&I); X && !nm[p].empty() && X->getType()->isIntegerTy()) first.insert({nm[p], X});
    }
    if (!L) { R.add(key, locF(&F), what + ": there is no loop over all the voices"); return false; }
    sy.rep = [this](const Value *v) -> const Value * {
      if (auto *X = dyn_cast<LoadInst>(v)) { auto n = nm.find(X->getPointerOperand()); if (n != nm.end()) { auto f = first.find(n->second); if (f != first.end()) return f->second; } }
      return v;
    };
    // every turn from the first voice to the last
    SmallVector<BasicBlock *, 4> ex;
    L->getExitingBlocks(ex);
    bool all = false;
    for (auto *E : ex) {
      unsigned tc = fi.SE.getSmallConstantTripCount(L, E);
      if (auto *Br = dyn_cast<BranchInst>(E->getTerminator()); !tc && Br && Br->isConditional()) // turns counted with a number that could wrap
        if (auto *Cm = dyn_cast<ICmpInst>(Br->getCondition()))
          for (int sw = 0; sw < 2 && !tc; sw++) {
            const Value *counter = Cm->getOperand(sw);
            bool sx = isa<SExtInst>(counter), zx = isa<ZExtInst>(counter);
            if (sx || zx) counter = cast<CastInst>(counter)->getOperand(0);
            auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(counter)));
            auto *K = dyn_cast<ConstantInt>(Cm->getOperand(1 - sw));
            auto *a = AR && AR->isAffine() && AR->getLoop() == L ? dyn_cast<SCEVConstant>(AR->getStart()) : nullptr, *d = a ? dyn_cast<SCEVConstant>(AR->getStepRecurrence(fi.SE)) : nullptr;
            if (!d || !K) continue;
            auto pr = sw ? Cm->getSwappedPredicate() : Cm->getPredicate();
            APInt x = a->getAPInt();
            for (unsigned n = 1; n < 200; n++, x += d->getAPInt())
              if (L->contains(Br->getSuccessor(ICmpInst::compare(sx ? x.sext(K->getBitWidth()) : zx ? x.zext(K->getBitWidth()) : x, K->getValue(), pr) ? 0 : 1)) == false) { tc = n; break; }
          }
      if (!tc) { R.add(key + ":all", loc(E->getTerminator()), what + ": not all the voices are looked at (the loop ends early)"); return false; }
      bool atHead = E == L->getHeader() && !L->isLoopLatch(E);
      if ((atHead ? tc - 1 : tc) == 64) all = true;
      else { R.add(key + ":all", loc(E->getTerminator()), what + ": not all the voices are looked at"); return false; }
    }
    obligations++;
    return all;
  }
  Bits in(const std::string &n) { // bits of an input, 8 wide
    auto it = first.find(n);
    if (it == first.end()) return Bits::unknown(8);
    unsigned w = it->second->getType()->getIntegerBitWidth();
    return Syms::leaf(sy.of(it->second), w, CR::getFull(w));
  }
  Bits sub(Bits b, const Case &c) { for (auto &x : b.b) { auto it = c.bit.find(x); if (it != c.bit.end()) x = it->second; } return b; }
  void atom(const std::string &n, const Bits &a, const Bits &b) {
    Pairs p;
    if (!a.known() || !b.known()) return;
    for (unsigned i = 0; i < std::max(a.w(), b.w()); i++) { long x = i < a.w() ? a.b[i] : 0, y = i < b.w() ? b.b[i] : 0; if (x != y) p.s.insert(Pairs::of(x, y)); }
    atoms[n] = p;
  }
  std::optional<bool> decide(Walk &W, const WState &S, const Instruction *I, const Case &c) {
    if (auto *T = dyn_cast<TruncInst>(I)) { Bits b = sub(sy.eval(W, S, T->getOperand(0)), c); if (!b.b.empty() && (b.b[0] == 0 || b.b[0] == 1)) return b.b[0]; return {}; }
    auto *C = cast<ICmpInst>(I);
    if (!C->getOperand(0)->getType()->isIntegerTy()) return {};
    Bits a = sub(sy.eval(W, S, C->getOperand(0)), c), b = sub(sy.eval(W, S, C->getOperand(1)), c);
    if (a.constant() && b.constant() && a.w() <= 64) return ICmpInst::compare(APInt(a.w(), a.value()), APInt(a.w(), b.value()), C->getPredicate());
    if (!C->isEquality()) return {};
    bool isEq = C->getPredicate() == ICmpInst::ICMP_EQ;
    std::set<std::pair<long, long>> d;
    bool unknown = false;
    for (unsigned i = 0; i < a.w(); i++) {
      long x = a.b[i], y = b.b[i];
      if (x < 0 || y < 0) { unknown = true; continue; }
      if (x == y) continue;
      if (x < 2 && y < 2) return !isEq;
      d.insert(Pairs::of(x, y));
    }
    for (auto &at : atoms) {
      auto t = c.eq.find(at.first);
      if (t == c.eq.end() || at.second.s.empty()) continue;
      auto ps = at.second.s;
      std::set<std::pair<long, long>> q; // the atom under this case's constants
      for (auto &p : ps) { long x = p.first, y = p.second; auto i = c.bit.find(x), j = c.bit.find(y); if (i != c.bit.end()) x = i->second; if (j != c.bit.end()) y = j->second; if (x != y) q.insert(Pairs::of(x, y)); }
      bool sup = std::includes(d.begin(), d.end(), q.begin(), q.end());
      if (!sup) continue;
      if (!t->second) return !isEq;
      for (auto &p : q) d.erase(p);
    }
    if (d.empty() && !unknown) return isEq;
    return {};
  }
  struct Effect { std::string calls, flags, synth, other; };
  // `want`: what a turn does in this case ("" in flags/synth: unchanged), several if more than one thing is right
  std::function<void(const Instruction *, const Case &, const std::string &synth, WState &)> after; // behind the loop
  std::function<void(Walk &, WState &, const BasicBlock *, const Case &)> turn;                     // at the end of one
  std::function<void(Walk &, WState &, const CallBase *)> behind;                                   // a call behind the loop
  Walk *cur = nullptr;
  // what this turn's path gave the merging values, and which way its comparisons went
  using Chosen = std::map<const Value *, const Value *>;
  std::vector<Chosen> chosen{{}};
  std::map<Chosen, int> chosenId{{{}, 0}};
  const Value *resolve(const WState &S, const Value *v, bool *sign = nullptr) {
    auto &m = chosen[S.ts[5]];
    for (int n = 0; n < 30; n++) {
      auto it = m.find(v);
      if (it != m.end()) { v = it->second; continue; }
      if (auto *Sel = dyn_cast<SelectInst>(v)) { auto c = m.find(Sel->getCondition()); if (c == m.end()) return v; v = cast<ConstantInt>(c->second)->isZero() ? Sel->getFalseValue() : Sel->getTrueValue(); continue; }
      if (auto *C = dyn_cast<CastInst>(v)) { if (sign && isa<SExtInst>(C) && !isa<ZExtInst>(C->getOperand(0))) *sign = true; v = C->getOperand(0); continue; }
      return v;
    }
    return v;
  }
  void follow(const BasicBlock *from, const BasicBlock *to, WState &S) {
    Chosen m = chosen[S.ts[5]];
    if (auto *Br = dyn_cast<BranchInst>(from->getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
      const Value *v = Br->getCondition();
      bool t = Br->getSuccessor(0) == to;
      m[v] = ConstantInt::getBool(v->getContext(), t);
    }
    if (to != L->getHeader())
      for (auto &Ph : to->phis()) { auto *v = Ph.getIncomingValueForBlock(from); auto it = chosen[S.ts[5]].find(v); m[&Ph] = it == chosen[S.ts[5]].end() ? v : it->second; }
    auto it = chosenId.find(m);
    if (it == chosenId.end()) { it = chosenId.insert({m, (int)chosen.size()}).first; chosen.push_back(m); }
    S.ts[5] = it->second;
  }
  std::function<void(Walk &, const WState &, Case &)> before;                                       // a condition is decided
  // the flags of the channel the voice of this turn is on
  bool voiceChannel(Walk &W, const WState &S, const Value *p) {
    Addr A = decompose(p);
    if (A.field(P) != "s_synth_channel_tag.channelFlags" || W.canon(S, A.root) != F.getArg(syn)) return false;
    Bits ch = in("v.channel");
    bool is = false;
    for (auto &st : A.steps)
      if (st.k == Step::Index && st.var) {
        Bits b = sy.eval(W, S, st.var);
        bool same = b.w() >= 4;
        for (unsigned i = 0; same && i < b.w(); i++) same = i < 4 ? b.b[i] == ch.b[i] : b.b[i] == 0;
        if (!same && !isa<ConstantInt>(st.var)) return false;
        is |= same;
      }
    return is;
  }
  void run(const Case &given, const std::function<bool(const Effect &)> &fits, const std::function<std::string(const CallBase *)> &callName) {
    Walk W(P, F, MR);
    cur = &W;
    Case c = given;
    W.maxStates = 60;
    sy.fix = &c.bit;
    WState init;
    init.ts = {0, 0, 0, 0, 0, 0}; // in the loop; calls; voice flags; synth flags; anything else; what was chosen
    if (ch < F.arg_size()) init.fact.insert_or_assign(F.getArg(ch), CR(APInt(8, 0), APInt(8, 16)));
    auto check = [&](WState &S, const Instruction *at) {
      obligations++;
      turns++;
      Effect e{words[S.ts[1]], words[S.ts[2]], words[S.ts[3]], words[S.ts[4]]};
      if (!fits(e)) {
        std::string d = e.calls.empty() && e.flags.empty() && e.synth.empty() && e.other.empty() ? "nothing is done" : "";
        auto say = [&](const std::string &s) { if (!s.empty()) d += (d.empty() ? "" : ", ") + s; };
        say(e.calls); if (!e.flags.empty()) say("the voice's flags become " + e.flags); if (!e.synth.empty()) say("the synthesizer's flags become " + e.synth); say(e.other);
        R.add(key, loc(at), what + ": for " + c.text + ", " + d, Walk::path(S));
      }
    };
    auto clear = [&](WState &S) {
      std::map<const Value *, CR> keep; // what is carried into the next turn as a constant
      for (auto &Ph : L->getHeader()->phis())
        if (Walk::tracked(&Ph)) if (CR r = W.get(S, &Ph); r.isSingleElement() && r.getSingleElement()->ult(2)) keep.insert({&Ph, r});
      for (auto it = S.fact.begin(); it != S.fact.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.fact.erase(it) : std::next(it); }
      for (auto it = S.same.begin(); it != S.same.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.same.erase(it) : std::next(it); }
      S.mem.clear();
      for (auto &k : keep) S.fact.insert_or_assign(k.first, k.second);
      S.ts = {1, 0, 0, 0, 0, 0};
    };
    W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
      bool a = L->contains(from), b = L->contains(to);
      if (!a && b) { if (turn) for (auto &Ph : L->getHeader()->phis()) S.fact.erase(&Ph), S.same.erase(&Ph); S.ts = {1, 0, 0, 0, 0, 0}; return; } // any turn
      if (turn && a && b) follow(from, to, S);
      if (a && b && to == L->getHeader()) { check(S, from->getTerminator()); if (turn) turn(W, S, from, c); clear(S); return; }
      if (a && !b && from != L->getHeader()) check(S, from->getTerminator());
      if (a && !b) clear(S), S.ts[0] = 2;
    };
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
      auto *t = &S.ts;
      if ((isa<ICmpInst>(I) || (isa<TruncInst>(I) && I->getType()->isIntegerTy(1)))) {
        if (before) before(W, S, c);
        if (auto d = decide(W, S, I, c)) { CR r(APInt(1, *d)); if (!W.refine(S, I, r)) return false; }
        return true;
      }
      if (auto *X = dyn_cast<LoadInst>(I)) {
        if (!X->getType()->isIntegerTy() || W.canon(S, X) != X) return true;
        if (c.pedal >= 0 && voiceChannel(W, S, X->getPointerOperand())) { c.bit[2 + (long)sy.of(X) * 64] = c.pedal; return true; }
        auto n = nm.find(X->getPointerOperand());
        if (n == nm.end() || n->second.empty()) return true;
        Bits b = sub(in(n->second), c);
        if (b.constant()) return W.refine(S, X, CR(APInt(b.w(), b.value())));
        return true;
      }
      auto other = [&](const std::string &s) { (*t)[4] = intern(s); };
      if (auto *X = dyn_cast<StoreInst>(I)) {
        std::string n = nm[X->getPointerOperand()], f = decompose(X->getPointerOperand()).field(P);
        if (n == "y.synthFlags" && (*t)[0] == 2) { Bits b = sub(sy.eval(W, S, X->getValueOperand()), c), old = sub(in(n), c); (*t)[3] = b == old && b.known() ? 0 : intern(b.str()); return true; }
        if ((*t)[0] != 1) return true;
        if (!L->contains(X)) return true;
        if (f == "s_voice_mgr_tag.workload") return true;
        if (n == "v.voiceFlags" || n == "y.synthFlags") {
          Bits b = sub(sy.eval(W, S, X->getValueOperand()), c), old = sub(in(n), c);
          (*t)[n[0] == 'v' ? 2 : 3] = b == old && b.known() ? 0 : intern(b.str());
          return true;
        }
        if (n == "v.voiceState") { Bits b = sub(sy.eval(W, S, X->getValueOperand()), c); other("the voice's state becomes " + b.str()); return true; }
        if (isa<AllocaInst>(decompose(X->getPointerOperand()).root)) return true;
        other("something else is written (" + (f.empty() ? loc(X) : f) + ")");
        return true;
      }
      auto *B = dyn_cast<CallBase>(I);
      if (!B || isDbg(B) || isField0(B) || isa<IntrinsicInst>(B)) return true;
      if (behind && (*t)[0] == 2 && !L->contains(B)) behind(W, S, B);
      if ((*t)[0] != 1 || !L->contains(B)) return true;
      std::string n = callName(B);
      if (n.empty()) return true;
      (*t)[1] = intern(words[(*t)[1]].empty() ? n : words[(*t)[1]] + ", " + n);
      return true;
    };
    W.ret = [&](const ReturnInst *Rt, WState &S) {
      obligations++;
      if (!S.ts[0]) R.add(key + ":all", loc(Rt), what + ": for " + c.text + ", the voices are not looked at", Walk::path(S));
      if (after) after(Rt, c, words[S.ts[3]], S);
    };
    W.run(init);
    if (W.overflow) R.broken.push_back(key + ": too many states");
  }
  // is this argument the number of the voice of this turn, the voice itself, the manager ..?
  bool turnNumber(const Value *v) {
    auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(v)));
    while (!AR) { auto *C = dyn_cast<CastInst>(v); if (!C) return false; v = C->getOperand(0); AR = dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(v))); }
    auto *a = dyn_cast<SCEVConstant>(AR->getStart()), *st = dyn_cast<SCEVConstant>(AR->getStepRecurrence(fi.SE));
    if (AR->getLoop() != L || !a || !st) return false;
    long x = a->getAPInt().getSExtValue(), d = st->getAPInt().getSExtValue();
    return (x == 0 && d == 1) || (x == 63 && d == -1);
  }
};

// is it this operation of the synthesizer's table?
bool operation(const Program &P, const std::string &n, const char *s) {
  for (auto &st : P.slotTargets) {
    size_t h = st.first.find('#');
    if (fieldName(P, st.first.substr(0, h), atoi(st.first.c_str() + h + 1)) != s) continue;
    for (auto *G : st.second) if (G->getName() == n) return true;
  }
  return n.find(s) != std::string::npos;
}

struct Select {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  long obligations = 0, cases = 0;
  Select(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P) {}

  // name of a call in a turn: "release" / "sustain" / "mute" of this turn's voice
  std::string callName(VoiceLoop &V, const CallBase *B) {
    std::string slot, n = calleeName(B);
    bool unk;
    if (n.empty()) { callees(P, B, &unk, &slot); n = slot; }
    auto isVoice = [&](const Value *p) { return V.name(p) == "v." + V.member("s_synth_voice_tag", 0); };
    auto op = [&](const char *s) { return operation(P, n, s); };
    if (n == "VMReleaseVoice") return B->getArgOperand(1) == V.F.getArg(V.syn) && V.turnNumber(B->getArgOperand(2)) ? "release" : "another voice is released";
    if (n == "VMMuteVoice") return V.turnNumber(B->getArgOperand(1)) ? "mute" : "another voice is muted";
    if (op("pfMuteVoice")) return isVoice(B->getArgOperand(2)) ? "mute" : "another voice is muted";
    if (op("pfReleaseVoice")) return isVoice(B->getArgOperand(2)) ? "release" : "another voice is released";
    if (op("pfUpdateVoice")) return isVoice(B->getArgOperand(2)) ? "update" : "another voice is synthesized";
    if (op("pfSustainPedal")) return isVoice(B->getArgOperand(2)) ? "sustain" : "another voice is sustained";
    if (n == "android_errorWriteLog" || n == "EAS_Report" || n == "EAS_ReportEx") return "";
    return n + " is called";
  }
  const char *stateName[6] = {"a free voice", "a voice that just started", "a playing voice", "a releasing voice", "a muting voice", "a stolen voice"};
  unsigned chArg = 2;
  std::function<void(VoiceLoop &)> groups; // names the regions of a turn
  using Fits = std::function<bool(VoiceLoop &, const VoiceLoop::Effect &, const Case &, int state, const std::map<std::string, bool> &)>;
  void voices(const char *fn, const char *key, const char *what, unsigned note, const std::vector<std::string> &conds, const Fits &fits, bool pending = false) {
    auto *F = P.M->getFunction(fn);
    if (!F || F->isDeclaration()) { R.broken.push_back(std::string(fn) + " is not there"); return; }
    VoiceLoop V(P, R, MR, *F, key, what);
    V.note = note;
    V.ch = chArg;
    if (!V.prepare()) { obligations++; return; }
    if (groups) groups(V);
    auto arg = [&](unsigned k) { unsigned w = F->getArg(k)->getType()->getIntegerBitWidth(); return Syms::leaf(V.sy.of(F->getArg(k)), w, CR::getFull(w)); };
    Bits tag;
    if (V.ch < F->arg_size()) {
      tag = Syms::leaf(V.sy.of(F->getArg(V.ch)), 8, CR(APInt(8, 0), APInt(8, 16)));
      Bits y = V.in("y.vSynthNum");
      for (unsigned i = 0; i < 4; i++) tag.b[4 + i] = y.b[i];
      V.atom("channel", V.in("v.channel"), tag);
      V.atom("nextChannel", V.in("v.nextChannel"), tag);
    }
    auto group = [&](const char *in) { Bits b = V.in(in); return b.known() ? b.shr(4) : b; };
    Bits num = V.in("y.vSynthNum");
    for (unsigned i = 2; i < num.w(); i++) num.b[i] = 0; // there are four
    V.atom("own", group("v.channel"), num.trunc(8));
    V.atom("nextOwn", group("v.nextChannel"), num.trunc(8));
    if (note < F->arg_size()) {
      V.atom("note", V.in("v.note"), arg(note));
      V.atom("nextNote", V.in("v.nextNote"), arg(note));
    }
    unsigned n = conds.size();
    for (int st = 0; st < 6; st++)
      for (unsigned m = 0; m < 1u << n; m++) {
        Case c;
        std::map<std::string, bool> v;
        Bits s = V.in("v.voiceState");
        for (unsigned i = 0; i < s.w(); i++) if (s.b[i] > 1) c.bit[s.b[i]] = st >> i & 1;
        c.text = stateName[st];
        if (std::count(conds.begin(), conds.end(), "own")) { Bits y = V.in("y.vSynthNum"); for (unsigned i = 2; i < y.w(); i++) if (y.b[i] > 1) c.bit[y.b[i]] = 0; }
        for (unsigned i = 0; i < n; i++) {
          bool t = m >> i & 1;
          auto &k = conds[i];
          v[k] = t;
          auto setBit = [&](const char *in, unsigned b) { Bits x = V.in(in); if (x.b[b] > 1) c.bit[x.b[b]] = t; };
          if (k == "pedal") setBit("c.channelFlags", 0), c.text += t ? ", pedal down" : ", pedal up";
          else if (k == "voicePedal") c.pedal = t, c.text += t ? ", the pedal of its channel down" : ", the pedal of its channel up";
          else if (k == "own" || k == "nextOwn") c.eq[k] = t, c.text += t ? (k == "own" ? ", of this synthesizer" : ", taken for a note of this synthesizer") : (k == "own" ? ", of another synthesizer" : ", taken for a note of another synthesizer");
          else if (k == "unheard") setBit("v.voiceFlags", 3), c.text += t ? ", nothing synthesized yet" : "";
          else if (k == "mute") setBit("v.voiceFlags", 6), c.text += t ? ", asked to be muted" : ", not asked to be muted";
          else if (k == "group" || k == "nextGroup") c.eq[k] = t, c.text += std::string(t ? ", " : ", not ") + (k == "group" ? "a sound of the group" : "waiting for a sound of the group");
          else if (k == "held") setBit("v.voiceFlags", 1), c.text += t ? ", held by the pedal" : ", not held";
          else if (k == "deferred") setBit("v.voiceFlags", 2), c.text += t ? ", its note-off deferred" : ", no note-off deferred";
          else c.eq[k] = t, c.text += std::string(", ") + (t ? "same " : "another ") + (k == "channel" ? "channel" : k == "note" ? "note" : k == "nextChannel" ? "next channel" : "next note");
        }
        if (pending) {
          Bits x = V.in("y.synthFlags");
          if (x.b[3] > 1) c.bit[x.b[3]] = 1;
          V.after = [&, st, v](const Instruction *at, const Case &c, const std::string &y, WState &S) {
            V.obligations++;
            bool stays = v.at("deferred") && st == 5 && v.at("nextOwn"), may = v.at("deferred") && st == 5;
            if (may && !stays && y.empty()) return;
            if (!y.empty() && (stays || y != flags(V, "y.synthFlags", c, 0, 8)))
              R.add(std::string(key) + ":pending", loc(at), std::string(what) + ": for " + c.text + ", the synthesizer's flags become " + y + (stays ? ": the note-off of the stolen voice is forgotten" : ""), Walk::path(S));
          };
        }
        cases++;
        V.run(c, [&](const VoiceLoop::Effect &e) { return fits(V, e, c, st, v); }, [&](const CallBase *B) { return callName(V, B); });
      }
    obligations += V.obligations;
    R.stats["voice_turns"] += V.turns;
  }
  // the flags with some bits set or cleared
  static std::string flags(VoiceLoop &V, const char *in, const Case &c, unsigned set, unsigned clear) {
    Bits b = V.sub(V.in(in), c), o = b;
    for (unsigned i = 0; i < b.w(); i++) { if (set >> i & 1) b.b[i] = 1; if (clear >> i & 1) b.b[i] = 0; }
    return b == o ? "" : b.str();
  }
  void allVoices() {
    using E = VoiceLoop::Effect;
    auto none = [](const E &e) { return e.calls.empty() && e.flags.empty() && e.synth.empty() && e.other.empty(); };
    enum { SUST = 2, DEFER = 4, PENDING = 8, MUTE = 0x40 };
    voices("VMStopNote", "note-off", "a note-off", 3, {"channel", "note", "nextChannel", "nextNote", "pedal", "unheard"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      bool own = v.at("channel") && v.at("note"), next = v.at("nextChannel") && v.at("nextNote");
      if (st == 5) return next ? e.calls.empty() && e.other.empty() && e.flags == flags(V, "v.voiceFlags", c, DEFER, 0) && (e.synth.empty() || e.synth == flags(V, "y.synthFlags", c, PENDING, 0)) : none(e);
      if (!own) return none(e);
      if ((st == 0 || st >= 3) && none(e)) return true; // it has ended already
      if (v.at("pedal")) return e.calls.empty() && e.synth.empty() && e.other.empty() && e.flags == flags(V, "v.voiceFlags", c, SUST, 0);
      if (v.at("unheard")) return e.calls.empty() && e.other.empty() && e.flags == flags(V, "v.voiceFlags", c, DEFER, 0) && e.synth == flags(V, "y.synthFlags", c, PENDING, 0);
      return e.calls == "release" && e.flags.empty() && e.synth.empty() && e.other.empty();
    });
    voices("VMReleaseAllDeferredNoteOffs", "pedal-up", "lifting the pedal", 99, {"channel", "held"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      if (!v.at("channel") || !v.at("held")) return none(e);
      if ((st == 0 || st >= 3) && none(e)) return true;
      return e.calls == "release" && e.synth.empty() && e.other.empty() && e.flags == flags(V, "v.voiceFlags", c, 0, SUST);
    });
    voices("VMCatchNotesForSustainPedal", "pedal-down", "pressing the pedal", 99, {"channel"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      if (!v.at("channel") || st != 3) return none(e);
      return e.calls == "sustain" && e.synth.empty() && e.other.empty() && e.flags.empty();
    });
    voices("VMAllNotesOff", "notes-off", "all notes off", 99, {"channel", "nextChannel"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      if (st == 0 || !v.at(st == 5 ? "nextChannel" : "channel")) return none(e);
      if (st == 4 && none(e)) return true;
      return e.calls == "mute" && e.synth.empty() && (e.other.empty() || e.other == "the voice's state becomes 0x4");
    });
    voices("VMDeferredStopNote", "deferred", "carrying out deferred note-offs", 99, {"deferred", "own", "nextOwn", "voicePedal"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      if (!v.at("deferred") || st == 5 || !v.at("own")) return none(e);
      if (st == 0 || st >= 3) return e.synth.empty() && e.other.empty() && (e.calls.empty() || e.calls == "release" || e.calls == "sustain");
      return e.calls == (v.at("voicePedal") ? "sustain" : "release") && e.synth.empty() && e.other.empty() && e.flags == flags(V, "v.voiceFlags", c, 0, DEFER);
    }, true);
    voices("VMMuteAllVoices", "mute-all", "muting a synthesizer", 99, {"own", "nextOwn"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      if (!v.at(st == 5 ? "nextOwn" : "own") || ((st == 0 || st == 4) && none(e))) return none(e);
      return e.calls == "mute" && e.synth.empty() && e.other.empty() && e.flags.empty();
    });
    voices("VMReleaseAllVoices", "release-all", "releasing a synthesizer", 99, {"own", "nextOwn"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      if (st == 0 || st == 3 || st == 4 || !v.at(st == 5 ? "nextOwn" : "own")) return none(e);
      return e.calls == (st == 5 ? "mute" : "release") && e.synth.empty() && e.other.empty() && e.flags.empty();
    });
  }

  // ---- sounds that exclude each other
  // whose region does this path look at: the voice's or that of the note it waits for?
  std::string regionOf(VoiceLoop &V, Walk &W, const WState &S, const LoadInst *X) {
    std::set<std::string> from;
    std::set<const Value *> seen;
    std::vector<const Value *> w{X->getPointerOperand()};
    while (!w.empty()) {
      auto *v = W.canon(S, w.back());
      w.pop_back();
      if (!v || !seen.insert(v).second || isa<Constant>(v)) continue;
      if (V.turnNumber(v)) continue;
      if (auto *LI = dyn_cast<LoadInst>(v)) {
        auto n = V.nm.find(LI->getPointerOperand());
        if (n != V.nm.end() && n->second.rfind("v.", 0) == 0) { from.insert(n->second); continue; }
      }
      if (auto *I = dyn_cast<Instruction>(v)) {
        if (isa<PHINode>(I) && I->getParent() == V.L->getHeader()) { from.insert("?"); continue; }
        if (auto *B = dyn_cast<CallBase>(I)) { for (auto &A : B->args()) w.push_back(A); continue; }
        for (auto &O : I->operands()) if (!isa<BasicBlock>(O)) w.push_back(O);
      }
    }
    return from.size() == 1 ? *from.begin() : "?";
  }
  void exclusive() {
    using E = VoiceLoop::Effect;
    auto none = [](const E &e) { return e.calls.empty() && e.flags.empty() && e.synth.empty() && e.other.empty(); };
    chArg = 3;
    auto *KF = P.M->getFunction("VMCheckKeyGroup");
    groups = [&](VoiceLoop &V) {
      auto loads = std::make_shared<std::vector<const LoadInst *>>();
      auto whose = std::make_shared<std::map<std::string, std::string>>();
      for (auto &I : instructions(V.F))
        if (auto *X = dyn_cast<LoadInst>(&I); X && decompose(X->getPointerOperand()).field(P) == "s_region_tag.keyGroupAndFlags") {
          Bits a = Syms::leaf(V.sy.of(X), 16, CR::getFull(16)), g = Syms::leaf(V.sy.of(KF->getArg(2)), 16, CR::getFull(16));
          for (unsigned i = 0; i < 16; i++) if (i < 8 || i > 11) a.b[i] = g.b[i] = 0;
          V.atom("group#" + std::to_string(loads->size()), a, g);
          loads->push_back(X);
        }
      V.before = [this, &V, loads](Walk &W, const WState &S, Case &c) {
        for (unsigned i = 0; i < loads->size(); i++) {
          std::string k = "group#" + std::to_string(i), f = regionOf(V, W, S, (*loads)[i]);
          c.eq.erase(k);
          if (f == "v.regionIndex") c.eq[k] = c.eq.at("group");
          if (f == "v.nextRegionIndex") c.eq[k] = c.eq.at("nextGroup");
        }
        for (unsigned i = 0; i < 16; i++) if (i < 8 || i > 11) c.bit[2 + (long)V.sy.of(V.F.getArg(2)) * 64 + i] = 0;
      };
      obligations += loads->size();
    };
    if (KF && KF->arg_size() == 4)
      voices("VMCheckKeyGroup", "exclusive:group", "a note of an exclusive group", 99, {"channel", "nextChannel", "group", "nextGroup", "unheard"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
        bool own = st == 5 ? v.at("nextChannel") && v.at("nextGroup") : v.at("channel") && v.at("group");
        if (!own) return none(e);
        if ((st == 0 || st == 4) && none(e)) return true;
        if (v.at("unheard")) return e.calls.empty() && e.synth.empty() && e.other.empty() && e.flags == flags(V, "v.voiceFlags", c, 0x40, 0);
        return e.calls == "mute" && e.flags.empty() && e.synth.empty() && e.other.empty();
      });
    else R.broken.push_back("VMCheckKeyGroup is not there");
    groups = nullptr;
    chArg = 99;
    voices("VMAddSamples", "exclusive:carried-out", "a block of sound", 99, {"mute"}, [=](VoiceLoop &V, const E &e, const Case &c, int st, const std::map<std::string, bool> &v) {
      size_t u = e.calls.find("update"), m = e.calls.rfind("mute"), f = e.calls.rfind("VMFreeVoice");
      if (st == 0 || !v.at("mute")) return m == std::string::npos;
      if (u == std::string::npos) return f != std::string::npos; // the voice was given back
      return (m != std::string::npos && m > u) || (f != std::string::npos && f > u);
    });
    chArg = 2;
    handOver(true);
    startExclusive();
    repeated();
  }
  // a starting voice asks for its group to be silenced and for its key to be limited, when its sound says so
  void startExclusive() {
    auto *F = P.M->getFunction("VMStartVoice");
    if (!F || F->isDeclaration() || F->arg_size() != 6) { R.broken.push_back("VMStartVoice is not there"); return; }
    for (int cs = 0; cs < 6; cs++) {
      bool free_ = cs & 1;
      unsigned group = cs / 2 == 0 ? 0 : cs / 2 == 1 ? 1 : 9;
      std::string text = std::string(group ? "a sound of an exclusive group" : "a sound of no group") + (free_ ? " that layers freely" : "");
      Walk W(P, *F, MR);
      W.maxStates = 200;
      Syms sy;
      WState init;
      init.ts = {0, 0, 0}; // silenced, limited, started
      init.fact.insert_or_assign(F->getArg(2), CR(APInt(8, 0), APInt(8, 16)));
      const Value *rgn = F->getArg(5);
      auto regionLoad = [&](const LoadInst *X) {
        if (decompose(X->getPointerOperand()).field(P) != "s_region_tag.keyGroupAndFlags") return false;
        std::set<const Value *> seen;
        std::vector<const Value *> w{X->getPointerOperand()};
        bool is = false;
        while (!w.empty()) {
          auto *v = w.back();
          w.pop_back();
          if (!seen.insert(v).second) continue;
          if (v == rgn) is = true;
          if (auto *I = dyn_cast<Instruction>(v)) for (auto &O : I->operands()) if (!isa<BasicBlock>(O)) w.push_back(O);
        }
        return is;
      };
      auto bad = [&](const Instruction *at, WState &S, const std::string &s) { R.add("exclusive:start", loc(at), "starting " + text + ": " + s, Walk::path(S)); };
      auto begin = [&](const Instruction *at, WState &S) {
        obligations++;
        if (group && !S.ts[0]) bad(at, S, "the other voices of its group are not silenced");
        if (!free_ && !S.ts[1]) bad(at, S, "the number of voices playing this key is not limited");
        S.ts[2] = 1;
      };
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
        if (auto *X = dyn_cast<LoadInst>(I)) {
          auto f = decompose(X->getPointerOperand()).field(P);
          if (f.find("poolCount") != std::string::npos) return W.refine(S, X, CR(APInt(8, 1), APInt(8, 65)));
          if (regionLoad(X)) return W.refine(S, X, CR(APInt(16, (group << 8) | (free_ ? flagFree : 0))));
          return true;
        }
        auto *B = dyn_cast<CallBase>(I);
        if (!B || isDbg(B) || isa<IntrinsicInst>(B)) return true;
        std::string n = calleeName(B), slot;
        bool unk;
        if (n.empty()) { callees(P, B, &unk, &slot); n = slot; }
        if (n == "VMCheckKeyGroup") {
          obligations++;
          CR g = W.get(S, B->getArgOperand(2), 24);
          if (!group) bad(B, S, "voices are silenced although it excludes none");
          else if (!g.isSingleElement() || *g.getSingleElement() != group << 8) bad(B, S, "another group is silenced");
          if (!sameNumber(W, S, B->getArgOperand(3), F->getArg(2)) || B->getArgOperand(1) != F->getArg(1)) bad(B, S, "voices of another channel are silenced");
          if (S.ts[2]) bad(B, S, "its group is silenced after it was started");
          S.ts[0] = 1;
        } else if (n == "VMCheckPolyphonyLimiting") {
          obligations++;
          if (free_) bad(B, S, "an older voice of the key is taken although it may layer");
          if (B->getArgOperand(1) != F->getArg(1) || !sameNumber(W, S, B->getArgOperand(2), F->getArg(2)) || !sameNumber(W, S, B->getArgOperand(3), F->getArg(3))) bad(B, S, "another key or channel is limited");
          S.ts[1] = 1;
          if (group && !S.ts[0]) bad(B, S, "the other voices of its group are not silenced");
        } else if (n == "VMStolenVoice" || operation(P, n, "pfStartVoice")) begin(B, S);
        return true;
      };
      W.run(init);
      cases++;
      if (W.overflow) R.broken.push_back("VMStartVoice: too many states");
    }
  }
  static constexpr unsigned flagFree = 0x40;
  bool sameNumber(Walk &W, const WState &S, const Value *a, const Value *b) {
    a = W.canon(S, a);
    while (auto *C = dyn_cast<CastInst>(a)) a = W.canon(S, C->getOperand(0));
    return a == b;
  }
  // of a key that plays too often, the oldest voice gives way
  void repeated() {
    auto *F = P.M->getFunction("VMCheckPolyphonyLimiting");
    if (!F || F->isDeclaration() || F->arg_size() != 8) { R.broken.push_back("VMCheckPolyphonyLimiting is not there"); return; }
    // it is asked to look at all the voices
    for (auto &G : *P.M)
      for (auto &I : instructions(G))
        if (auto *B = dyn_cast<CallBase>(&I); B && B->getCalledFunction() == F) {
          auto *lo = dyn_cast<ConstantInt>(B->getArgOperand(6)), *hi = dyn_cast<ConstantInt>(B->getArgOperand(7));
          obligations++;
          if (!lo || !hi) { R.broken.push_back("VMCheckPolyphonyLimiting: the voices looked at are not known"); return; }
          if (!lo->isZero() || hi->getZExtValue() != 63) R.add("exclusive:limit:all", loc(B), "only some voices are looked at for the key that starts");
        }
    F->getArg(6)->replaceAllUsesWith(ConstantInt::get(F->getArg(6)->getType(), 0));
    F->getArg(7)->replaceAllUsesWith(ConstantInt::get(F->getArg(7)->getType(), 63));
    auto strip = [](const Value *v) { while (true) { if (auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); else if (auto *Ph = dyn_cast<PHINode>(v); Ph && Ph->getNumIncomingValues() == 1) v = Ph->getIncomingValue(0); else return v; } };
    long seen = 0, stolen = 0, ages = 0;
    auto hooks = [&](VoiceLoop &V) {
      const BasicBlock *H = V.L->getHeader();
      const PHINode *cand = nullptr, *count = nullptr;
      auto header = [&, H](const Value *v) -> const PHINode * { auto *Ph = dyn_cast<PHINode>(strip(v)); return Ph && Ph->getParent() == H ? Ph : nullptr; };
      for (auto &I : instructions(V.F)) {
        if (V.L->contains(&I) && I.getParent() != H) continue;
        if (auto *B = dyn_cast<CallBase>(&I); B && calleeName(B) == "VMStolenVoice") cand = header(B->getArgOperand(2));
        if (auto *C = dyn_cast<ICmpInst>(&I); C && !V.L->contains(C) && !C->isEquality())
          for (int k = 0; k < 2; k++) if (auto *Ph = header(C->getOperand(k)); Ph && isa<ConstantInt>(C->getOperand(1 - k))) count = Ph;
      }
      if (!cand || !count || cand == count) { R.broken.push_back("VMCheckPolyphonyLimiting: what is counted was not recognised"); return; }
      auto *start = dyn_cast<ConstantInt>(count->getIncomingValueForBlock(V.L->getLoopPreheader()));
      if (start && !start->isZero()) R.add("exclusive:limit:count", loc(count), "the voices playing a key are not counted from none");
      auto in = [&V](const WState &S, const PHINode *Ph, const BasicBlock *from) { return V.resolve(S, Ph->getIncomingValueForBlock(from)); };
      bool usesAge = false; // does a comparison look at the voice's age?
      for (auto *BB : V.L->blocks())
        for (auto &I : *BB)
          if (isa<ICmpInst>(I) || isa<IntrinsicInst>(I)) {
            std::vector<const Value *> w{&I};
            std::set<const Value *> done;
            while (!w.empty()) {
              auto *v = w.back();
              w.pop_back();
              auto *J = dyn_cast<Instruction>(v);
              if (!J || !done.insert(J).second || !V.L->contains(J)) continue;
              if (auto *X = dyn_cast<LoadInst>(J)) { if (V.nm[X->getPointerOperand()] == "v.age") usesAge = true; continue; }
              for (auto &O : J->operands()) w.push_back(O);
            }
          }
      V.turn = [=, &V, &seen, &ages](Walk &W, WState &S, const BasicBlock *from, const Case &c) {
        int st = 0;
        Bits s = V.sub(V.in("v.voiceState"), c);
        if (s.constant()) st = s.value();
        bool match = st == 5 ? c.eq.at("nextChannel") && c.eq.at("nextNote") : c.eq.at("channel") && c.eq.at("note");
        if (st == 0 && match) return; // a free voice has no channel
        auto bad = [&](const std::string &t) { R.add("exclusive:limit", loc(from->getTerminator()), "limiting a key's voices: for " + c.text + ", " + t, Walk::path(S)); };
        const Value *n = in(S, count, from), *k = in(S, cand, from);
        int d = -1;
        if (n == count) d = 0;
        else if (auto *A = dyn_cast<BinaryOperator>(n)) {
          auto *x = dyn_cast<ConstantInt>(A->getOperand(1));
          if (x && strip(A->getOperand(0)) == count && (A->getOpcode() == Instruction::Add || A->getOpcode() == Instruction::Sub)) d = A->getOpcode() == Instruction::Add ? (int)x->getSExtValue() : -(int)x->getSExtValue();
        }
        if (d >= 0) { seen++; obligations++; if (d != (match ? 1 : 0)) bad(d ? "the voice is counted although it does not play this key" : "the voice is not counted although it plays this key"); }
        obligations++;
        bool taken = k != cand;
        if (taken && !V.turnNumber(k)) bad("another voice is chosen to give way");
        if (taken && (!match || st == 5)) bad("the voice is chosen to give way");
        if (!match || st == 5) return;
        if (taken && !usesAge) bad("the voice is chosen to give way whatever its age");
        for (auto *BB : V.L->blocks())
          for (auto &I : *BB) {
            auto *C = dyn_cast<ICmpInst>(&I);
            if (!C || C->isEquality()) continue;
            for (int sw = 0; sw < 2; sw++) {
              auto *A = header(C->getOperand(sw));
              bool fixed = isa<Constant>(strip(C->getOperand(sw)));
              if ((!A && !fixed) || (A && (A == count || A == cand))) continue;
              const Value *y = strip(C->getOperand(1 - sw));
              auto *D = dyn_cast<BinaryOperator>(y);
              auto isAge = [&](const Value *v) { auto *X = dyn_cast<LoadInst>(strip(v)); return X && V.nm[X->getPointerOperand()] == "v.age"; };
              auto isNow = [&](const Value *v) { auto *X = dyn_cast<LoadInst>(strip(v)); return X && decompose(X->getPointerOperand()).field(P) == "s_voice_mgr_tag.age"; };
              if (isAge(y) || (D && D->getOpcode() == Instruction::Sub && isAge(D->getOperand(1)) && isa<Constant>(strip(D->getOperand(0))))) { ages++; bad("its age is not measured from now, so that it is wrong when the counter of notes starts over"); continue; }
              if (!D || D->getOpcode() != Instruction::Sub) continue;
              bool fwd = isNow(D->getOperand(0)) && isAge(D->getOperand(1)), rev = isNow(D->getOperand(1)) && isAge(D->getOperand(0));
              if (!fwd && !rev) continue;
              if (fixed) { ages++; bad("its age is not compared with that of the voice chosen so far"); continue; }
              auto r = V.chosen[S.ts[5]].find(C);
              if (r == V.chosen[S.ts[5]].end()) continue;
              auto pr = sw ? C->getPredicate() : C->getSwappedPredicate(); // this voice's age .. the one remembered
              if (cast<ConstantInt>(r->second)->isZero()) pr = ICmpInst::getInversePredicate(pr);
              bool older = ICmpInst::isGT(pr) || ICmpInst::isGE(pr);
              ages++;
              obligations++;
              if (rev) bad("its age is measured backwards");
              bool wraps = D->getType()->isIntegerTy(16), minus = wraps && C->isSigned() && C->getOperand(0)->getType()->isIntegerTy(16);
              for (const Value *v = C->getOperand(1 - sw); v != D;) {
                auto *X = dyn_cast<CastInst>(v);
                if (X && isa<TruncInst>(X) && X->getType()->isIntegerTy(16)) { wraps = true; minus |= C->isSigned() && C->getOperand(0)->getType()->isIntegerTy(16); }
                if (X && isa<SExtInst>(X) && X->getOperand(0)->getType()->isIntegerTy(16)) minus = true;
                v = X ? X->getOperand(0) : cast<PHINode>(v)->getIncomingValue(0);
              }
              if (!wraps || minus) bad("its age is wrong when the counter of notes starts over or the voice is very old");
              if (taken != older) bad(taken ? "a younger voice is chosen to give way" : "the older voice is passed over");
              if (taken && strip(in(S, A, from)) != D) bad("its age is not remembered");
              if (!taken && in(S, A, from) != A) bad("its age is remembered though it was not chosen");
            }
          }
      };
      V.behind = [=, &V, &stolen](Walk &W, WState &S, const CallBase *B) {
        if (calleeName(B) != "VMStolenVoice") return;
        stolen++;
        obligations++;
        CR n = W.get(S, count);
        auto bad = [&](const std::string &t) { R.add("exclusive:limit:take", loc(B), "limiting a key's voices: " + t, Walk::path(S)); };
        if (n.getSignedMin().slt(2)) bad("a voice is taken although fewer than two play the key");
        if (W.get(S, cand).contains(APInt(cand->getType()->getIntegerBitWidth(), 64))) bad("a voice is taken that does not exist");
        if (!sameNumber(W, S, B->getArgOperand(4), V.F.getArg(3)) || !sameNumber(W, S, B->getArgOperand(5), V.F.getArg(4)) || !sameNumber(W, S, B->getArgOperand(6), V.F.getArg(5))) bad("the voice is not given the new note");
        S.ts[1] = V.intern("taken");
      };
      V.after = [=, &V](const Instruction *at, const Case &c, const std::string &, WState &S) {
        obligations++;
        auto *Rt = cast<ReturnInst>(at);
        CR n = V.cur->get(S, count), k = V.cur->get(S, cand), r = V.cur->get(S, Rt->getReturnValue());
        bool took = V.words[S.ts[1]] == "taken", yes = r.isSingleElement() && !r.getSingleElement()->isZero(), no = r.isSingleElement() && r.getSingleElement()->isZero();
        auto bad = [&](const std::string &t) { R.add("exclusive:limit:take", loc(at), "limiting a key's voices: " + t, Walk::path(S)); };
        if ((took && !yes) || (!took && !no)) bad("what is reported is not what was done");
        if (!took && !n.getSignedMax().slt(2) && !(k.isSingleElement() && *k.getSingleElement() == 64)) bad("no voice gives way although two play the key");
      };
    };
    groups = hooks;
    voices("VMCheckPolyphonyLimiting", "exclusive:limit:turn", "limiting a key's voices", 3, {"channel", "note", "nextChannel", "nextNote"}, [=](VoiceLoop &V, const VoiceLoop::Effect &e, const Case &c, int st, const std::map<std::string, bool> &v) { return e.calls.empty() && e.flags.empty() && e.synth.empty() && e.other.empty(); });
    groups = nullptr;
    if ((!seen || !stolen) && R.viols.empty()) R.broken.push_back("VMCheckPolyphonyLimiting: nothing was counted or taken");
    R.stats["ages"] = ages;
  }

  // ---- whose voice may be taken
  // the fields of this turn's voice that a value of this path comes from
  std::set<std::string> sources(VoiceLoop &V, const WState &S, const Value *from) {
    std::set<std::string> out;
    std::set<const Value *> seen;
    std::vector<const Value *> w{from};
    while (!w.empty()) {
      auto *v = V.resolve(S, w.back());
      w.pop_back();
      if (!seen.insert(v).second || isa<Constant>(v) || V.turnNumber(v)) continue;
      if (auto *LI = dyn_cast<LoadInst>(v)) {
        auto n = V.nm.find(LI->getPointerOperand());
        if (n != V.nm.end() && n->second.rfind("v.", 0) == 0) { out.insert(n->second); continue; }
      }
      if (auto *I = dyn_cast<Instruction>(v)) {
        if (isa<PHINode>(I)) { out.insert("?"); continue; }
        if (auto *B = dyn_cast<CallBase>(I)) { for (auto &A : B->args()) w.push_back(A); continue; }
        for (auto &O : I->operands()) if (!isa<BasicBlock>(O)) w.push_back(O);
      }
    }
    return out;
  }
  void taking() {
    auto *F = P.M->getFunction("VMStealVoice");
    if (!F || F->isDeclaration() || F->arg_size() != 7) { R.broken.push_back("VMStealVoice is not there"); return; }
    for (auto &G : *P.M)
      for (auto &I : instructions(G))
        if (auto *B = dyn_cast<CallBase>(&I); B && B->getCalledFunction() == F) {
          auto *lo = dyn_cast<ConstantInt>(B->getArgOperand(5)), *hi = dyn_cast<ConstantInt>(B->getArgOperand(6));
          obligations++;
          if (!lo || !hi) { R.broken.push_back("VMStealVoice: the voices looked at are not known"); return; }
          if (!lo->isZero() || hi->getZExtValue() != 63) R.add("taking:all", loc(B), "only some voices are considered for a note");
        }
    F->getArg(5)->replaceAllUsesWith(ConstantInt::get(F->getArg(5)->getType(), 0));
    F->getArg(6)->replaceAllUsesWith(ConstantInt::get(F->getArg(6)->getType(), 63));
    auto strip = [](const Value *v) { while (true) { if (auto *C = dyn_cast<CastInst>(v)) v = C->getOperand(0); else if (auto *Ph = dyn_cast<PHINode>(v); Ph && Ph->getNumIncomingValues() == 1) v = Ph->getIncomingValue(0); else return v; } };
    long seen = 0, given = 0;
    groups = [&](VoiceLoop &V) {
      const BasicBlock *H = V.L->getHeader();
      auto header = [=](const Value *v) -> const PHINode * { auto *Ph = dyn_cast<PHINode>(strip(v)); return Ph && Ph->getParent() == H ? Ph : nullptr; };
      const PHINode *cand = nullptr;
      for (auto &I : instructions(V.F))
        if (auto *X = dyn_cast<StoreInst>(&I); X && X->getPointerOperand() == V.F.getArg(2)) {
          given++;
          obligations++;
          if (auto *Ph = header(X->getValueOperand())) cand = Ph;
        }
      if (!cand) { R.broken.push_back("VMStealVoice: what is chosen was not recognised"); return; }
      // before anything was looked at, none is chosen: no voice has that number
      APInt nil(cand->getType()->getIntegerBitWidth(), 64);
      for (unsigned i = 0; i < cand->getNumIncomingValues(); i++)
        if (!V.L->contains(cand->getIncomingBlock(i))) {
          obligations++;
          auto *K = dyn_cast<ConstantInt>(cand->getIncomingValue(i));
          if (!K) { R.broken.push_back("VMStealVoice: what is chosen at first is not known"); return; }
          nil = K->getValue();
          if (nil.ult(64)) R.add("taking:first", loc(H->getTerminator()), "looking for a voice to take: a voice is chosen before any was looked at");
        }
      V.turn = [=, &V, &seen](Walk &W, WState &S, const BasicBlock *from, const Case &c) {
        int st = 0;
        Bits s = V.sub(V.in("v.voiceState"), c);
        if (s.constant()) st = s.value();
        auto bad = [&](const std::string &t) { R.add("taking:turn", loc(from->getTerminator()), "looking for a voice to take: for " + c.text + ", " + t, Walk::path(S)); };
        const Value *k = V.resolve(S, cand->getIncomingValueForBlock(from));
        bool taken = k != cand;
        // what the path found out of the two priorities (smaller numbers come first), and whether it weighed the voice
        bool lower = false, higher = false, weighed = false;
        for (auto &d : V.chosen[S.ts[5]]) {
          auto *C = dyn_cast<ICmpInst>(d.first);
          if (!C) continue;
          for (int sw = 0; sw < 2; sw++) if (auto *A = header(C->getOperand(sw)); A && !V.turnNumber(A)) weighed = true;
          if (C->isEquality()) continue;
          for (int sw = 0; sw < 2; sw++) {
            // unsigned numbers; the way back over extensions and what this turn chose
            bool sgn = false;
            auto plain = [&](const Value *v) { return dyn_cast<LoadInst>(V.resolve(S, v, &sgn)); };
            auto *x = plain(C->getOperand(sw)), *y = plain(C->getOperand(1 - sw));
            if (!x || !y || V.nm[x->getPointerOperand()] != "y.priority" || decompose(y->getPointerOperand()).field(P) != "s_synth_tag.priority") continue;
            auto f = sources(V, S, y->getPointerOperand());
            obligations++;
            if (f != std::set<std::string>{st == 5 ? "v.nextChannel" : "v.channel"}) { bad("the priority of another stream is looked at"); continue; }
            if (sgn || (C->isSigned() && C->getOperand(0)->getType()->getIntegerBitWidth() <= 8)) { bad("the priorities are compared as signed numbers"); continue; }
            auto pr = sw ? C->getSwappedPredicate() : C->getPredicate(); // the note's priority .. the voice's
            if (!cast<ConstantInt>(d.second)->getZExtValue()) pr = ICmpInst::getInversePredicate(pr);
            if (ICmpInst::isLE(pr)) lower = true;      // the voice's stream has the same or a lower one
            else if (ICmpInst::isGT(pr)) higher = true; // a higher one
            else if (ICmpInst::isLT(pr) && (taken || weighed)) bad("a voice of a stream of the same priority is treated like one of a higher priority");
            else if (!taken && !weighed) higher = ICmpInst::isGT(pr) || (bad("a voice of a stream of the same or a lower priority is spared"), true);
          }
        }
        seen++;
        obligations++;
        if (taken && !V.turnNumber(k)) bad("another voice is taken");
        if (taken && st == 0) bad("it is taken although it plays nothing");
        if (taken && st && !lower) bad("it is taken whatever the priority of its stream");
        if (!taken && !weighed && st && !higher) bad("it is not considered");
      };
      V.after = [=, &V](const Instruction *at, const Case &c, const std::string &, WState &S) {
        obligations++;
        CR r = V.cur->get(S, cast<ReturnInst>(at)->getReturnValue()), k = V.cur->get(S, cand);
        bool none = k.isSingleElement() && *k.getSingleElement() == nil, ok = r.isSingleElement() && r.getSingleElement()->isZero();
        auto bad = [&](const std::string &t) { R.add("taking:result", loc(at), "looking for a voice to take: " + t, Walk::path(S)); };
        if ((none || k.contains(nil)) && ok) bad("a voice that does not exist is handed out");
        if (!none && !k.contains(nil) && !ok) bad("the voice found is not handed out");
      };
    };
    chArg = 3;
    voices("VMStealVoice", "taking:turn", "looking for a voice to take", 4, {"channel", "note", "unheard"}, [=](VoiceLoop &V, const VoiceLoop::Effect &e, const Case &c, int st, const std::map<std::string, bool> &v) { return e.calls.empty() && e.flags.empty() && e.synth.empty() && e.other.empty(); });
    groups = nullptr;
    if ((!seen || !given) && R.viols.empty()) R.broken.push_back("VMStealVoice: nothing was chosen or handed out");
    // who looks for one is given the one found, for the note it was looked for
    std::set<Function *> askers;
    for (auto *U : F->users())
      if (auto *B = dyn_cast<CallBase>(U); B && B->getCalledFunction() == F) askers.insert(B->getFunction());
    long given2 = 0;
    for (auto *G : askers) {
      DominatorTree DT(*G);
      Walk W(P, *G, MR);
      W.maxStates = 200;
      WState init;
      init.ts = {0};
      std::vector<const CallBase *> calls{nullptr};
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
        auto *B = dyn_cast<CallBase>(I);
        auto *to = B ? B->getCalledFunction() : nullptr;
        if (auto *X = dyn_cast<StoreInst>(I); X && S.ts[0] && W.canon(S, X->getPointerOperand()) == W.canon(S, calls[S.ts[0]]->getArgOperand(2))) S.ts[0] = 0;
        if (!to) return true;
        auto bad = [&](const std::string &t) { R.add("taking:asked", loc(I), "a note for which no voice is left: " + t, Walk::path(S)); };
        if (to == F) {
          obligations++;
          size_t n = 1;
          while (n < calls.size() && calls[n] != B) n++;
          if (n == calls.size()) calls.push_back(B);
          S.ts[0] = n;
          if (W.canon(S, B->getArgOperand(1)) != G->getArg(1)) bad("the voice is looked for for another stream");
        } else if (to->getName() == "VMStolenVoice") {
          obligations++;
          given2++;
          auto *steal = calls[S.ts[0]];
          if (!steal) { bad("a voice is taken without having been looked for"); return true; }
          CR r = W.get(S, steal);
          if (!r.isSingleElement() || !r.getSingleElement()->isZero()) bad("a voice is taken although none was found");
          if (W.canon(S, B->getArgOperand(1)) != W.canon(S, steal->getArgOperand(1))) bad("the voice is taken for another stream than it was looked for");
          auto *L = dyn_cast<LoadInst>(strip(B->getArgOperand(2)));
          if (!L || W.canon(S, L->getPointerOperand()) != W.canon(S, steal->getArgOperand(2)) || !DT.dominates(steal, L)) bad("another voice is taken than the one found");
        }
        return true;
      };
      W.run(init);
    }
    if (!given2 && R.viols.empty()) R.broken.push_back("VMStealVoice: nobody takes the voice found");
    // the priority of a stream is what was asked for
    if (auto *SP = P.M->getFunction("VMSetPriority"); SP && !SP->isDeclaration()) {
      Walk W(P, *SP, MR);
      W.maxStates = 50;
      WState init;
      init.ts = {0};
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
        auto *X = dyn_cast<StoreInst>(I);
        if (!X || decompose(X->getPointerOperand()).field(P) != "s_synth_tag.priority") return true;
        obligations++;
        if (auto *root = W.canon(S, decompose(X->getPointerOperand()).root); root != SP->getArg(1)) R.add("taking:priority", loc(X), "setting a stream's priority: another stream's is set", Walk::path(S));
        if (CR n = W.get(S, SP->getArg(SP->arg_size() - 1)); n.getUnsignedMax().ugt(255)) R.add("taking:priority", loc(X), "setting a stream's priority: a number is stored that does not fit", Walk::path(S));
        auto *v = X->getValueOperand();
        while (auto *T = dyn_cast<CastInst>(v)) v = T->getOperand(0);
        if (W.canon(S, v) != SP->getArg(SP->arg_size() - 1)) R.add("taking:priority", loc(X), "setting a stream's priority: something else than the priority given is stored", Walk::path(S));
        S.ts[0] = 1;
        return true;
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) { obligations++; CR r = W.get(S, Rt->getReturnValue()); if (!S.ts[0] && r.contains(APInt(r.getBitWidth(), 0))) R.add("taking:priority", loc(Rt), "setting a stream's priority: it is not stored", Walk::path(S)); };
      W.run(init);
    } else R.broken.push_back("VMSetPriority is not there");
    // nothing else changes it, but what makes a stream's synthesizer
    std::function<bool(const Function *, int)> making = [&](const Function *G, int d) {
      if (G->getName() == "VMInitMIDI" || G->getName() == "VMSetPriority") return true;
      bool any = false;
      for (auto *U : G->users()) {
        auto *B = dyn_cast<CallBase>(U);
        if (d > 8 || !B || B->getCalledFunction() != G || !making(B->getFunction(), d + 1)) return false;
        any = true;
      }
      return any;
    };
    for (auto &G : *P.M)
      for (auto &I : instructions(G)) {
        auto *X = dyn_cast<StoreInst>(&I);
        if (!X || decompose(X->getPointerOperand()).field(P) != "s_synth_tag.priority") continue;
        obligations++;
        bool ok = making(&G, 0);
        for (const DILocation *L = X->getDebugLoc().get(); L && !ok; L = L->getInlinedAt())
          if (auto *sub = L->getScope()->getSubprogram()) ok = sub->getName() == "VMInitMIDI" || sub->getName() == "VMSetPriority";
        if (!ok) R.add("taking:priority", loc(X), "a stream's priority is changed although none was set for it");
      }
  }

  // ---- which region a note starts
  void startNote() {
    auto *F = P.M->getFunction("VMStartNote");
    if (!F || F->isDeclaration() || F->arg_size() != 5) { R.broken.push_back("VMStartNote is not there"); return; }
    VoiceLoop V(P, R, MR, *F, "note-on", "a note-on");
    auto &SE = V.fi.SE;
    std::map<const Value *, std::string> region; // load of a field of a region
    for (const Instruction &I : instructions(*F))
      if (auto *X = dyn_cast<LoadInst>(&I)) {
        auto *p = X->getPointerOperand();
        V.nm[p] = V.name(p);
        std::string f = decompose(p).field(P);
        for (auto k : {"s_region_tag.rangeLow", "s_region_tag.rangeHigh", "s_region_tag.keyGroupAndFlags", "s_dls_region_tag.velLow", "s_dls_region_tag.velHigh"}) if (f == k) V.nm[p] = region[X] = "r" + f.substr(f.find('.'));
        if (!V.nm[p].empty() && X->getType()->isIntegerTy()) V.first.insert({V.nm[p], X});
      }
    V.sy.rep = [&V](const Value *v) -> const Value * {
      if (auto *X = dyn_cast<LoadInst>(v)) { auto n = V.nm.find(X->getPointerOperand()); if (n != V.nm.end()) { auto f = V.first.find(n->second); if (f != V.first.end()) return f->second; } }
      return v;
    };
    auto bare = [](const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; };
    // the region number: starts at the channel's, one further each turn
    auto isIdx = [&](const Value *v) -> const SCEVAddRecExpr * {
      auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(const_cast<Value *>(bare(v))));
      if (!AR || !AR->isAffine() || !AR->getStepRecurrence(SE)->isOne()) return nullptr;
      const SCEV *a = AR->getStart();
      while (auto *c = dyn_cast<SCEVCastExpr>(a)) a = c->getOperand();
      auto *U = dyn_cast<SCEVUnknown>(a);
      auto *X = U ? dyn_cast<LoadInst>(U->getValue()) : nullptr;
      return X && V.nm[X->getPointerOperand()] == "c.regionIndex" ? AR : nullptr;
    };
    std::map<const Loop *, const PHINode *> loops;
    for (auto *L : V.fi.loops())
      for (auto &I : *L->getHeader()) if (auto *Ph = dyn_cast<PHINode>(&I); Ph && Ph->getType()->isIntegerTy()) if (auto *AR = isIdx(Ph); AR && AR->getLoop() == L) loops[L] = Ph;
    if (loops.empty()) { R.add("note-on:search", locF(F), "a note-on does not look through the regions of its channel's program, one after the other"); obligations++; return; }
    auto loopOf = [&](const BasicBlock *B) -> const Loop * { for (auto &l : loops) if (l.first->contains(B)) return l.first; return nullptr; };
    for (int mute = 0; mute < 2; mute++)
      for (int dls = 0; dls < 2; dls++)
        for (int rhythm = 0; rhythm < 2; rhythm++)
          for (int rng = -1; rng < 2; rng++)
            for (int m = mute ? 31 : 0; m < 32; m++) {
              bool low = m & 1, high = m & 2, vlow = m & 4, vhigh = m & 8, last = m & 16;
              if (!dls && (m & 12) != 12 && !mute) continue; // no velocity ranges there
              bool match = low && high && (!dls || (vlow && vhigh));
              cases++;
              Case c;
              auto setBit = [&](const Bits &x, unsigned b, bool t) { if (b < x.w() && x.b[b] > 1) c.bit[x.b[b]] = t; };
              setBit(V.in("c.channelFlags"), 1, mute);
              setBit(V.in("c.channelFlags"), 3, rhythm);
              setBit(V.in("c.regionIndex"), 14, dls);
              for (auto &l : loops) setBit(Syms::leaf(V.sy.of(l.second), l.second->getType()->getIntegerBitWidth(), CR::getFull(l.second->getType()->getIntegerBitWidth())), 14, dls);
              setBit(V.in("r.keyGroupAndFlags"), 15, last);
              V.sy.fix = &c.bit;
              c.text = std::string(dls ? "a loaded" : "a built-in") + (rhythm ? " drum" : "") + " sound, " + (rng < 0 ? "a transposed key below 0, " : rng ? "a transposed key above 127, " : "") +
                       (low ? "key not below" : "key below") + " the region, " + (high ? "key not above it, " : "key above it, ") + (dls ? vlow && vhigh ? "velocity inside it, " : "velocity outside it, " : "") + (last ? "last region" : "more regions");
              if (mute) c.text = "a muted channel";
              std::string sum = rhythm ? "add(c.coarsePitch,note)" : "add(c.coarsePitch,note,y.globalTranspose)";
              Walk W(P, *F, MR);
              W.maxStates = 60;
              WState init;
              init.ts = {0, 0}; // in the search; notes started in this turn
              init.fact.insert_or_assign(F->getArg(2), CR(APInt(8, 0), APInt(8, 16)));
              auto bad = [&](const std::string &k, const Instruction *I, WState &S, const std::string &t) { R.add("note-on:" + k, loc(I), "a note-on: for " + c.text + ", " + t, Walk::path(S)); };
              auto namer = [&](const Value *v) -> std::string {
                if (v == F->getArg(3)) return "note";
                if (v == F->getArg(4)) return "velocity";
                for (auto &l : loops) if (v == l.second) return "idx";
                if (auto *X = dyn_cast<LoadInst>(v)) { auto n = V.nm.find(X->getPointerOperand()); if (n != V.nm.end()) return n->second == "c.regionIndex" ? "idx" : n->second; }
                return "";
              };
              auto isKey = [&](WState &S, const Value *v) {
                bool ok = true;
                arms(W, S, v, [&](WState &S2, const Value *a) {
                  if (auto *K = dyn_cast<ConstantInt>(a)) return rng < 0 ? K->isZero() : rng > 0 && K->getValue() == 127;
                  return rng == 0 && Norm{W, S2, namer}.str(a) == sum;
                }, ok);
                return ok;
              };
              // where a region's field is read: table[number]
              std::function<bool(WState &, const Value *, int)> place = [&](WState &S, const Value *p, int next) {
                Addr A = decompose(p);
                std::vector<Step> steps = A.steps;
                const Value *root = A.root;
                for (int n = 0; n < 8; n++) {
                  auto *r = W.canon(S, root);
                  if (r == root && !isField0(r)) break;
                  Addr B = decompose(r);
                  if (B.root == root) break;
                  steps.insert(steps.begin(), B.steps.begin(), B.steps.end());
                  root = B.root;
                }
                if (auto *Ph = dyn_cast<PHINode>(root)) { // kept from turn to turn
                  auto *l = loopOf(Ph->getParent());
                  if (!l || l->getHeader() != Ph->getParent()) { // of the two tables
                    for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) if (!isa<PHINode>(Ph->getIncomingValue(i)) && place(S, Ph->getIncomingValue(i), next)) return true;
                    return false;
                  }
                  if (next >= 0) return false;
                  for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) if (!place(S, Ph->getIncomingValue(i), l->contains(Ph->getIncomingBlock(i)))) return false;
                  return true;
                }
                auto *X = dyn_cast<LoadInst>(root);
                std::string t = X ? decompose(X->getPointerOperand()).field(P) : "", ix;
                for (auto &s : steps) if (s.k == Step::Index && s.var) ix += Norm{W, S, namer}.str(s.var) + ";";
                size_t dot = t.find('.');
                t = dot == std::string::npos ? t : t.substr(dot + 1);
                if (next > 0) { // the number of the next turn
                  if (auto q = ix.find("wrap16(add(1,idx))"); q != std::string::npos) ix.replace(q, 18, "idx");
                  else if (auto q = ix.find("add(1,idx)"); q != std::string::npos) ix.replace(q, 10, "idx");
                  else if (auto q = ix.find("add(-16383,idx)"); q != std::string::npos) ix.replace(q, 15, "add(-16384,idx)");
                  else return false;
                }
                return dls ? t == "pDLSRegions" && (ix == "and(16383,idx);" || ix == "add(-16384,idx);") : t == "pWTRegions" && (ix == "idx;" || ix == "and(16383,idx);");
              };
              auto step = [&](WState &S, const Instruction *at, bool on) {
                obligations++;
                if (S.ts[1] != match) bad("start", at, S, S.ts[1] > 1 ? "the region is started twice" : S.ts[1] ? "the region is started" : "the region is not started");
                bool more = !last && (dls || !match);
                if (on != more) bad("search", at, S, on ? "the search goes on" : "the search ends");
              };
              W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
                auto *a = loopOf(from), *b = loopOf(to);
                if (b && a == b && to == b->getHeader()) {
                  step(S, from->getTerminator(), true);
                  for (auto it = S.fact.begin(); it != S.fact.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && b->contains(I) ? S.fact.erase(it) : std::next(it); }
                  for (auto it = S.same.begin(); it != S.same.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && b->contains(I) ? S.same.erase(it) : std::next(it); }
                  S.ts = {1, 0};
                } else if (b && a != b) S.ts = {1, 0};
              };
              W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
                if (auto *X = dyn_cast<LoadInst>(I)) {
                  if (region.count(X)) { obligations++; if (!place(S, X->getPointerOperand(), -1)) bad("region", X, S, "another region than the one whose turn it is is looked at"); }
                  return true;
                }
                if (auto *B = dyn_cast<CallBase>(I)) {
                  if (isDbg(B) || isField0(B) || isa<IntrinsicInst>(B)) return true;
                  std::string n = calleeName(B);
                  if (n != "VMStartVoice") return true;
                  obligations++;
                  S.ts[1] = std::min(2, S.ts[1] + 1);
                  const char *wh[] = {"", "synthesizer", "channel", "key", "velocity"};
                  for (unsigned k = 1; k < 5; k++) if (bare(W.canon(S, B->getArgOperand(k))) != F->getArg(k) && bare(B->getArgOperand(k)) != F->getArg(k)) bad("start", B, S, std::string("a voice is started with another ") + wh[k]);
                  auto *a = B->getArgOperand(5);
                  if (!isIdx(a) && Norm{W, S, namer}.str(a) != "idx") bad("start", B, S, "a voice is started with another region");
                  if (mute) bad("mute", B, S, "a voice is started");
                  return true;
                }
                if (I->getType()->isIntegerTy(1) && isa<CmpInst>(I) && I->getOperand(0)->getType()->isIntegerTy()) {
                  auto *Cm = cast<ICmpInst>(I);
                  std::optional<bool> d = V.decide(W, S, I, c);
                  for (int sw = 0; sw < 2 && !d; sw++) {
                    auto *x = Cm->getOperand(sw), *y = Cm->getOperand(1 - sw);
                    auto pr = sw ? Cm->getSwappedPredicate() : Cm->getPredicate(); // x pr y
                    auto *X = dyn_cast<LoadInst>(bare(W.canon(S, y)));
                    if (!X || !region.count(X)) continue;
                    if (x->getType()->getIntegerBitWidth() == 8 && ICmpInst::isSigned(pr)) continue;
                    std::string f = region[X];
                    bool isLow = f == "r.rangeLow" || f == "r.velLow", isVel = f == "r.velLow" || f == "r.velHigh";
                    if (f == "r.keyGroupAndFlags") continue;
                    obligations++;
                    if (isVel ? bare(W.canon(S, x)) != F->getArg(4) : !isKey(S, x)) { bad("key", I, S, isVel ? "another value than its velocity is compared with the velocity range" : "another value than the transposed key, limited to 0..127, is compared with the key range"); return false; }
                    bool t = f == "r.rangeLow" ? low : f == "r.rangeHigh" ? high : f == "r.velLow" ? vlow : vhigh; // inside
                    auto up = ICmpInst::getSignedPredicate(pr);
                    if (ICmpInst::isEquality(pr)) { if (!t) d = pr == ICmpInst::ICMP_NE; continue; }
                    bool ge = up == ICmpInst::ICMP_SGE, gt = up == ICmpInst::ICMP_SGT, le = up == ICmpInst::ICMP_SLE;
                    if (isLow) { if (ge) d = t; else if (!gt && !le) d = !t; else if (gt && !t) d = false; else if (le && !t) d = true; }
                    else { if (le) d = t; else if (gt) d = !t; else if (!ge && !t) d = false; else if (ge && !t) d = true; }
                  }
                  if (d) { CR r(APInt(1, *d)); return W.refine(S, I, r); }
                  return true;
                }
                if (isa<TruncInst>(I) && I->getType()->isIntegerTy(1)) { if (auto d = V.decide(W, S, I, c)) return W.refine(S, I, CR(APInt(1, *d))); return true; }
                if (I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() >= 16 && (isa<BinaryOperator>(I) || isa<CastInst>(I)) && W.canon(S, I) == I && Norm{W, S, namer}.str(I) == sum) {
                  unsigned w = I->getType()->getIntegerBitWidth();
                  CR r = rng < 0 ? CR(APInt(w, -400, true), APInt(w, 0)) : rng ? CR(APInt(w, 128), APInt(w, 700)) : CR(APInt(w, 0), APInt(w, 128));
                  return W.refine(S, I, r);
                }
                return true;
              };
              W.ret = [&](const ReturnInst *Rt, WState &S) {
                obligations++;
                if (mute) return;
                if (!S.ts[0]) bad("search", Rt, S, "no region is looked at");
                else step(S, Rt, false);
              };
              W.run(init);
              if (W.overflow) R.broken.push_back("note-on: too many states");
            }
    R.stats["region_searches"] = loops.size();
  }
  // ---- which voice gets the note, now or once it has been taken from another
  struct Spots { // places as text, whatever pointers the code keeps
    Program &P;
    std::function<std::string(const Value *)> extra;                   // names for numbers of the analysis' own
    std::function<std::string(const WState &, const std::string &)> field; // what a place is known to hold
    std::string of(Walk &W, const WState &S, const Value *p, int depth = 10) {
      if (!depth) return "?";
      p = W.canon(S, p);
      if (auto *A = dyn_cast<Argument>(p)) return "a" + std::to_string(A->getArgNo());
      if (isa<AllocaInst>(p)) { char t[24]; snprintf(t, sizeof t, "@%p", (const void *)p); return t; }
      if (auto *X = dyn_cast<LoadInst>(p)) return "*" + of(W, S, X->getPointerOperand(), depth - 1);
      Addr A = decompose(p);
      if (A.root == p || !A.root) return "?";
      std::string s = of(W, S, A.root, depth - 1);
      for (auto &st : A.steps)
        if (st.k == Step::Field) s += "." + fieldName(P, st.st, st.idx);
        else if (st.var) { std::string i = num(W, S, st.var, depth - 1); if (i != "0" || st.arrLen) s += "[" + i + "]"; }
      return s;
    }
    std::string num(Walk &W, const WState &S, const Value *v, int depth = 10) {
      auto namer = [&](const Value *x) -> std::string {
        if (auto *A = dyn_cast<Argument>(x)) return "a" + std::to_string(A->getArgNo());
        if (auto *X = dyn_cast<LoadInst>(x); X && X->getType()->isIntegerTy() && depth > 1 && W.canon(S, X) == X) {
          std::string p = of(W, S, X->getPointerOperand(), depth - 1), f = field ? field(S, p) : "";
          return f.empty() ? "*" + p : f;
        }
        return extra && W.canon(S, x) == x ? extra(x) : "";
      };
      return Norm{W, S, namer}.str(v);
    }
  };
  static std::string voiceOf(const std::string &spot, std::string &field) { // "a0.voices[n].f" -> n, f
    const std::string pre = "a0.voices[";
    if (spot.compare(0, pre.size(), pre)) return "";
    size_t e = pre.size(), d = 1;
    for (; e < spot.size() && d; e++) d += spot[e] == '[' ? 1 : spot[e] == ']' ? -1 : 0;
    field = e < spot.size() ? spot.substr(e + 1) : "";
    return spot.substr(pre.size(), e - 1 - pre.size());
  }
  void handOver(bool cuts = false) { // cuts: only whether a request to silence the waiting note is kept
    enum { StartIt, Steal, Retarget, Limit };
    const char *fns[] = {"VMStartVoice", "VMStolenVoice", "VMRetargetStolenVoice", "VMCheckPolyphonyLimiting"};
    const char *what[] = {"starting a voice", "taking a voice for a note", "starting the note of a stolen voice", "limiting the voices of a note"};
    const std::vector<std::string> fields = {"channel", "note", "velocity", "voiceState", "nextChannel", "nextNote", "nextVelocity", "nextRegionIndex", "regionIndex", "voiceFlags"};
    for (int kind = 0; kind < 4; kind++) {
      auto *F = P.M->getFunction(fns[kind]);
      if (!F || F->isDeclaration() || F->arg_size() < (kind == Retarget ? 2u : 6u)) { R.broken.push_back(std::string(fns[kind]) + " is not there"); continue; }
      // cases: the waiting note's note-off has come already; its channel is muted
      if (cuts && kind != Retarget) continue;
      for (int m = 0; m < (kind == Retarget ? 4 : 1); m++) {
        cases++;
        bool off = !cuts && m & 1, cut = cuts && m & 1, muted = m & 2;
        Spots sp{P};
        Syms sy;
        Walk W(P, *F, MR);
        W.maxStates = 400;
        std::map<std::string, const Value *> first;
        std::map<const Value *, const Value *> repOf;
        std::map<const Value *, std::string> loaded; // integer load -> place, on any path
        sy.rep = [&](const Value *v) -> const Value * { auto i = repOf.find(v); return i == repOf.end() ? v : i->second; };
        std::vector<std::string> words{""};
        std::map<std::string, int> ids;
        auto intern = [&](const std::string &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; words.push_back(s); return ids[s] = (int)words.size() - 1; };
        WState init;
        init.ts.assign(14, 0); // the fields; voice; event; synthesizer's flags; result of the call that decides
        enum { Voice = 10, Event = 11, Pend = 12, Res = 13 };
        unsigned chArg = kind == Steal ? 3 : 2;
        if (kind == StartIt || kind == Steal) init.fact.insert_or_assign(F->getArg(chArg), CR(APInt(8, 0), APInt(8, 16)));
        auto bad = [&](const std::string &k, const Instruction *I, WState &S, const std::string &t) {
          if (cuts != (k == "cut")) return;
          R.add(std::string(cuts ? "exclusive:waiting:" : "hand-over:") + fns[kind] + ":" + k, loc(I), std::string(what[kind]) + (kind == Retarget ? std::string(muted ? " (its channel muted" : " (its channel not muted") + (off ? ", its note-off already received)" : ")") : "") + ": " + t, Walk::path(S));
        };
        auto bare = [](const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; };
        auto isArg = [&](WState &S, const Value *v, unsigned k) { return bare(W.canon(S, bare(v))) == F->getArg(k); };
        auto isTag = [&](WState &S, const Value *v) { // channel | number of the synthesizer << 4
          Bits b = sy.eval(W, S, v);
          if (b.w() < 8) return false;
          const Value *y = nullptr;
          for (auto &l : loaded) if (l.second == "*a1.vSynthNum") y = repOf.count(l.first) ? repOf[l.first] : l.first;
          if (!y) return false;
          Bits c = Syms::leaf(sy.of(F->getArg(chArg)), 8, CR::getFull(8)), n = Syms::leaf(sy.of(y), 8, CR::getFull(8));
          for (unsigned i = 0; i < 4; i++) if (b.b[i] != c.b[i] || (b.b[i + 4] != n.b[i] && kind != Limit)) return false;
          // the upper half: the number, and what the caller may have put there already
          return true;
        };
        auto word = [&](WState &S, const std::string &f, const Value *v) -> std::string {
          for (unsigned k = 2; k < F->arg_size(); k++) if (isArg(S, v, k) && (f != "channel" && f != "nextChannel")) return "a" + std::to_string(k);
          if ((f == "channel" && kind == StartIt) || (f == "nextChannel" && kind == Steal)) { if (isTag(S, v)) return "tag"; }
          return sp.num(W, S, v);
        };
        const std::string me = "*a0.voices[a1].";
        auto wanted = [&](const std::string &f) -> std::string {
          if (kind == StartIt) return f == "channel" ? "tag" : f == "note" ? "a3" : f == "velocity" ? "a4" : f == "voiceState" ? "1" : "";
          if (kind == Steal) return f == "nextChannel" ? "tag" : f == "nextNote" ? "a4" : f == "nextVelocity" ? "a5" : f == "nextRegionIndex" ? "a6" : f == "voiceState" ? "5" : "";
          if (kind == Retarget) return f == "channel" ? me + "nextChannel" : f == "note" ? me + "nextNote" : f == "velocity" ? me + "nextVelocity" : f == "voiceState" ? "1" : "";
          return "";
        };
        auto complete = [&](const Instruction *I, WState &S) {
          for (unsigned k = 0; k < fields.size(); k++) {
            std::string w = wanted(fields[k]);
            if (w.empty()) continue;
            obligations++;
            if (words[S.ts[k]] != w) bad(fields[k], I, S, "the voice's " + fields[k] + (S.ts[k] ? " is not that of the note (" + words[S.ts[k]] + ")" : " is not set"));
          }
        };
        auto sameVoice = [&](const Instruction *I, WState &S, const std::string &n) {
          obligations++;
          if (kind != StartIt && kind != Limit && n != (kind == Steal ? "a2" : "a1")) { bad("voice", I, S, "another voice is changed"); return; }
          if (!S.ts[Voice]) S.ts[Voice] = intern(n);
          else if (words[S.ts[Voice]] != n) bad("voice", I, S, "two different voices are changed");
        };
        const std::string next = "*a0.pSynth[shr(" + me + "nextChannel,4)]", nextAlt = "*a0.pSynth[div(" + me + "nextChannel,16)]";
        auto isNext = [&](const std::string &s) { return s == next || s == nextAlt; };
        W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
          auto *t = &S.ts;
          if (auto *X = dyn_cast<LoadInst>(I)) {
            if (!X->getType()->isIntegerTy() || W.canon(S, X) != X) return true;
            std::string s = "*" + sp.of(W, S, X->getPointerOperand());
            loaded[X] = s;
            repOf[X] = first.insert({s + (kind == Retarget && (*t)[Event] ? "+" : ""), X}).first->second; // what is read after the start is another value
            auto set = [&](unsigned bit, bool v) { CR r = W.get(S, X); unsigned w = X->getType()->getIntegerBitWidth(); (void)r; Case c; c.bit[2 + (long)sy.of(X) * 64 + bit] = v; (void)w; fixed[c.bit.begin()->first] = v; };
            if (kind == Retarget) {
              if (s == me + "voiceFlags" && !(*t)[9] && (*t)[Event] != 1) { if (cuts) set(6, cut); else set(2, off); }
              size_t d = s.rfind('.');
              std::string head = d == std::string::npos ? "" : s.substr(1, d - 1), f = d == std::string::npos ? "" : s.substr(d + 1);
              if (f == "synthFlags" && isNext(head) && !(*t)[Pend]) set(1, muted);
              if (f == "channelFlags") { size_t c = head.rfind(".channels["); if (c != std::string::npos && isNext(head.substr(0, c)) && isLow4(head.substr(c), me + "nextChannel")) set(1, muted); }
              sy.fix = &fixed;
            }
            return true;
          }
          if (I->getType()->isIntegerTy(1) && kind == Retarget) {
            std::optional<bool> d;
            if (auto *Cm = dyn_cast<ICmpInst>(I); Cm && Cm->getOperand(0)->getType()->isIntegerTy()) {
              Bits a = sy.eval(W, S, Cm->getOperand(0)), b = sy.eval(W, S, Cm->getOperand(1));
              if (a.constant() && b.constant() && a.w() <= 64) d = ICmpInst::compare(APInt(a.w(), a.value()), APInt(a.w(), b.value()), Cm->getPredicate());
              else if (Cm->isEquality()) for (unsigned i = 0; i < a.w(); i++) if (a.b[i] >= 0 && b.b[i] >= 0 && a.b[i] < 2 && b.b[i] < 2 && a.b[i] != b.b[i]) d = Cm->getPredicate() == ICmpInst::ICMP_NE;
            } else if (isa<TruncInst>(I)) { Bits b = sy.eval(W, S, I->getOperand(0)); if (b.b[0] == 0 || b.b[0] == 1) d = b.b[0]; }
            if (d) return W.refine(S, I, CR(APInt(1, *d)));
            return true;
          }
          if (auto *X = dyn_cast<StoreInst>(I)) {
            std::string s = sp.of(W, S, X->getPointerOperand()), f, n = voiceOf(s, f);
            if (kind == Retarget) { size_t d = s.rfind('.'); if (d != std::string::npos && s.substr(d) == ".synthFlags" && (isNext(s.substr(0, d)) || words[t->at(0)] == me + "nextChannel")) { Bits b = sy.eval(W, S, X->getValueOperand()); if (isNext(s.substr(0, d))) (*t)[Pend] = b.b[3] == 1 ? 1 : 2; } }
            if (n.empty()) {
              // a field of a voice reached some other way
              std::string g = decompose(X->getPointerOperand()).field(P);
              if (g.compare(0, 18, "s_synth_voice_tag.") == 0) { obligations++; bad("voice", X, S, "a voice is changed that is not the one chosen"); }
              return true;
            }
            auto it = std::find(fields.begin(), fields.end(), f);
            if (it == fields.end()) return true;
            sameVoice(X, S, n);
            unsigned k = it - fields.begin();
            if (f == "voiceFlags") { Bits b = sy.eval(W, S, X->getValueOperand()); std::string w; for (unsigned i : {1u, 2u, 6u}) w += b.b[i] == 0 ? '0' : b.b[i] == 1 ? '1' : '?'; (*t)[k] = intern(w); }
            else (*t)[k] = intern(word(S, f, X->getValueOperand()));
            if (kind == Steal && k < 3) { obligations++; bad(f, X, S, "the sounding note's " + f + " is overwritten before it has ended"); }
            return true;
          }
          auto *B = dyn_cast<CallBase>(I);
          if (!B || isDbg(B) || isField0(B) || isa<IntrinsicInst>(B)) return true;
          std::string slot, n = calleeName(B), f;
          bool unk;
          if (n.empty()) { callees(P, B, &unk, &slot); n = slot; }
          auto spot = [&](unsigned k) { return sp.of(W, S, B->getArgOperand(k)); };
          auto event = [&](int e) { obligations++; if ((*t)[Event]) bad("once", I, S, "a note is started twice"); (*t)[Event] = e; };
          if (operation(P, n, "pfStartVoice")) {
            if (kind == Steal || kind == Limit) { bad("start", I, S, "a voice is started at once"); return true; }
            event(1);
            std::string v = voiceOf(spot(2), f);
            if (v.empty() || !f.empty()) bad("voice", I, S, "something else than a voice of the manager is started");
            else sameVoice(I, S, v);
            complete(I, S);
            obligations++;
            if (kind == StartIt ? !isArg(S, B->getArgOperand(1), 1) : !isNext(spot(1))) bad("synth", I, S, "it is started for another synthesizer than the note's (" + spot(1) + ")");
            std::string rg = sp.num(W, S, B->getArgOperand(4));
            if (kind == StartIt ? !isArg(S, B->getArgOperand(4), 5) : rg != me + "nextRegionIndex") bad("region", I, S, "it is started with another region than the note's (" + rg + ")");
            return true;
          }
          if (n == "VMStolenVoice") {
            event(2);
            if (kind == Steal || kind == Retarget) { bad("start", I, S, "another voice is taken"); return true; }
            const char *wh[] = {"", "synthesizer", "", "channel", "key", "velocity", "region"};
            for (unsigned k : {1u, 3u, 4u, 5u, 6u}) { obligations++; unsigned a = k == 1 ? 1 : k - 1; if (!isArg(S, B->getArgOperand(k), a) && !(k == 3 && isTag(S, B->getArgOperand(k)))) bad("stolen", I, S, std::string("a voice is taken for another ") + wh[k]); }
            return true;
          }
          if (n == "VMCheckPolyphonyLimiting" && kind == StartIt) {
            const char *wh[] = {"", "synthesizer", "channel", "key", "velocity", "region"};
            for (unsigned k = 1; k < 6; k++) { obligations++; if (!isArg(S, B->getArgOperand(k), k)) bad("limit", I, S, std::string("a voice is looked for with another ") + wh[k]); }
            return true;
          }
          if (n == "VMFreeVoice" && kind == Retarget) {
            event(3);
            if (voiceOf(spot(2), f) != "a1" || !f.empty()) bad("voice", I, S, "another voice is freed");
            if (S.ts[0]) bad("free", I, S, "it is freed after it changed hands");
            return true;
          }
          if (kind == Steal && (operation(P, n, "pfMuteVoice"))) {
            (*t)[Event] = 4;
            if (voiceOf(spot(2), f) != "a2") bad("mute", I, S, "another voice is muted");
          }
          return true;
        };
        W.ret = [&](const ReturnInst *Rt, WState &S) {
          obligations++;
          auto result = [&](const char *callee, bool &known) -> bool { // last result of that call: zero?
            known = false;
            for (auto &I : instructions(*F)) if (auto *B = dyn_cast<CallBase>(&I); B && calleeName(B) == callee) {
              auto it = S.fact.find(B);
              if (it == S.fact.end()) continue;
              CR r = it->second;
              APInt z(r.getBitWidth(), 0);
              if (r.isSingleElement() && *r.getSingleElement() == z) { known = true; return true; }
              if (!r.contains(z)) { known = true; return false; }
            }
            return false;
          };
          if (kind == StartIt) {
            if (S.ts[Event] == 1) complete(Rt, S);
            if (!S.ts[Event]) {
              bool k1, k2;
              bool lim = !result("VMCheckPolyphonyLimiting", k1), st = !result("VMStealVoice", k2);
              if (!(k1 && lim) && !(k2 && st)) bad("dropped", Rt, S, "the note is dropped although a voice was found for it");
            }
            return;
          }
          if (kind == Limit) {
            auto *v = Rt->getReturnValue();
            CR r = v ? W.get(S, v) : CR::getFull(1);
            APInt z(r.getBitWidth(), 0);
            bool yes = !r.contains(z), no = r.isSingleElement() && r.getSingleElement()->isZero();
            if (S.ts[Event] == 2 ? !yes : !no) bad("result", Rt, S, S.ts[Event] == 2 ? "a voice was taken, but the caller is not told" : "the caller is told a voice was taken, but none was");
            return;
          }
          if (kind == Steal) {
            complete(Rt, S);
            if (!S.ts[Event]) bad("mute", Rt, S, "the sound that is playing is not ended");
            std::string fl = words[S.ts[9]];
            if (fl != "000") bad("flags", Rt, S, "the voice keeps the delayed note-off of the note that was playing");
            return;
          }
          if (muted ? S.ts[Event] != 3 : S.ts[Event] != 1) bad("start", Rt, S, muted ? "the note is not dropped" : S.ts[Event] == 3 ? "the note is dropped" : "the note is not started");
          if (S.ts[Event] != 1) return;
          if (cuts) {
            std::string w = words[S.ts[9]];
            if (cut && (w.size() < 3 || w[2] != '1')) bad("cut", Rt, S, "the note was cut off by its group, but it plays");
            if (!cut && w.size() > 2 && w[2] == '1') bad("cut", Rt, S, "the note is silenced though nobody asked for it");
            return;
          }
          complete(Rt, S);
          if (off && (words[S.ts[9]].size() < 2 || words[S.ts[9]][1] != '1')) bad("note-off", Rt, S, "the note-off is forgotten");
          if (off && S.ts[Pend] != 1) bad("note-off", Rt, S, "the note-off is not requested from the note's synthesizer");
          if (!off && words[S.ts[9]].size() > 1 && words[S.ts[9]][1] == '1') bad("note-off", Rt, S, "the note is given a note-off it did not receive");
        };
        FnInfo fi(*F);
        W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) { // what one turn of a loop found out about its values
          auto *L = fi.LI.getLoopFor(to);
          if (!L || L->getHeader() != to || !L->contains(from)) return;
          for (auto it = S.fact.begin(); it != S.fact.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.fact.erase(it) : std::next(it); }
          for (auto it = S.same.begin(); it != S.same.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.same.erase(it) : std::next(it); }
        };
        fixed.clear();
        W.run(init);
        if (W.overflow) R.broken.push_back(std::string(fns[kind]) + ": too many states");
      }
    }
  }
  std::map<long, int> fixed;
  static bool isLow4(const std::string &s, const std::string &x) {
    for (auto &t : {"and(15," + x + ")", "and(" + x + ",15)", "rem(" + x + ",16)", "urem(" + x + ",16)"}) if (s == ".channels[" + t + "]") return true;
    return false;
  }

  // ---- every voice counted once: what a path does to a voice and what it does to the counters agree
  // active: voices that are not free; per synthesizer: by their channel; per pool: those not fading out, by the channel they play for
  struct Func { const char *name, *voice; unsigned num; unsigned states; const char *what; int synth; bool loop; };
  void account() {
    // voice: prefix of its fields; states: possible on entry (bit set); synth: argument that is the synthesizer of the voice's channel (or of the new note)
    const Func fns[] = {
        {"VMFreeVoice", "a2.", 3, 0x3f, "returning a voice to the pool", 1, false},
        {"VMMuteVoice", "a0.voices[a1].", 2, 0x3f, "muting a voice", -1, false},
        {"VMReleaseVoice", "a0.voices[a2].", 3, 0x1f, "releasing a voice", -1, false}, // nobody releases a stolen voice
        {"VMStolenVoice", "a0.voices[a2].", 7, 0x3e, "taking a voice for a note", -1, false},
        {"VMRetargetStolenVoice", "a0.voices[a1].", 2, 0x20, "starting the note of a stolen voice", -1, false},
        {"VMStartVoice", "", 6, 0x01, "starting a voice", -1, false},
        {"VMAllNotesOff", "", 3, 0x3f, "all notes off", -1, true},
        {"VMMIPUpdateChannelMuting", "", 2, 0x3f, "counting the voices after a change of the muted channels", -1, true},
        {"VMAddSamples", "", 3, 0x3f, "rendering", -1, true},
    };
    for (auto &fn : fns) {
      auto *F = P.M->getFunction(fn.name);
      if (!F || F->isDeclaration() || F->arg_size() != fn.num) { R.broken.push_back(std::string(fn.name) + " is not there"); continue; }
      bool recount = !strcmp(fn.name, "VMMIPUpdateChannelMuting"), render = !strcmp(fn.name, "VMAddSamples"), start = !strcmp(fn.name, "VMStartVoice"), steal = !strcmp(fn.name, "VMStolenVoice");
      int chArg = steal ? 3 : start ? 2 : -1;
      for (int st = 0; st < 6; st++)
        for (int m = 0; m < (start ? 3 : 4); m++) {
          if (!(fn.states >> st & 1)) continue;
          bool same = m & 1, own = m & 2;
          if (start) same = own = false;
          bool alike = !recount && st == 5 && own && !same; // taken for another channel of the same synthesizer
          if (!recount && !start && own && !alike) continue;
          cases++;
          FnInfo fi(*F);
          Walk W(P, *F, MR);
          W.maxStates = 400;
          std::vector<std::string> words{""};
          std::map<std::string, int> ids{{"", 0}};
          auto intern = [&](const std::string &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; words.push_back(s); return ids[s] = (int)words.size() - 1; };
          std::map<const PHINode *, int> phis;
          auto namer = [&](const Value *v) -> std::string { if (auto *Ph = dyn_cast<PHINode>(v); Ph && Ph->getType()->isIntegerTy()) return "p" + std::to_string(phis.insert({Ph, (int)phis.size()}).first->second); return ""; };
          Spots sp{P};
          sp.extra = namer;
          enum { State, Chan, Next, Vox, Active, Synths, Pools, Turn, N };
          WState init;
          init.ts.assign(N, 0);
          init.ts[State] = st;
          if (chArg >= 0) init.fact.insert_or_assign(F->getArg(chArg), CR(APInt(8, 0), APInt(8, 16)));
          const char *sn[6] = {"free", "just started", "playing", "releasing", "muting", "stolen"};
          auto bad = [&](const std::string &k, const Instruction *I, WState &S, const std::string &t) {
            R.add(std::string("count:") + fn.name + ":" + k, loc(I), std::string(fn.what) + " (" + sn[st] + " before, " + sn[S.ts[State] % 6] + " after" + (st == 5 ? same ? ", taken on its own channel" : alike ? ", taken for another channel of its synthesizer" : ", taken for another synthesizer" : "") + "): " + t, Walk::path(S));
          };
          std::string tag; // text of the channel number with the synthesizer's
          // one spelling for each place
          auto spell = [&](std::string s) {
            auto rep = [&](const std::string &a, const std::string &b) { if (a.empty()) return; for (size_t q; (q = s.find(a)) != std::string::npos;) s.replace(q, a.size(), b); };
            for (int n = 0; n < 2; n++) {
              for (std::string x : {std::string("C"), std::string("X"), std::string("T")}) {
                rep("and(15," + x + ")", x + "&15"); rep("and(" + x + ",15)", x + "&15"); rep("rem(" + x + ",16)", x + "&15");
                rep("shr(" + x + ",4)", x + ">>4"); rep("div(" + x + ",16)", x + ">>4");
              }
              if (!tag.empty()) rep(tag, "T");
              if (same) rep("X", "C");
              if (alike) rep("X>>4", "C>>4");
              rep("cut8(T)", "T");
            }
            rep("*a0.pSynth[T>>4]", "a1");
            if (chArg >= 0) rep("T&15", "a" + std::to_string(chArg));
            if (recount && own) rep(st == 5 && !same ? "*a0.pSynth[X>>4]" : "*a0.pSynth[C>>4]", "a1");
            if (fn.synth >= 0) rep("*a0.pSynth[C>>4]", "a" + std::to_string(fn.synth));
            return s;
          };
          auto voice = [&](WState &S, const std::string &spot, std::string &f) -> bool { // is it the voice this path is about?
            std::string pre = fn.voice;
            if (pre.empty()) {
              std::string n = voiceOf(spot, f);
              if (n.empty()) return false;
              if (!S.ts[Vox]) S.ts[Vox] = intern(n);
              return words[S.ts[Vox]] == n;
            }
            if (spot == pre.substr(0, pre.size() - 1)) { f = ""; return true; }
            if (spot.compare(0, pre.size(), pre)) return false;
            f = spot.substr(pre.size());
            return true;
          };
          sp.field = [&](const WState &S, const std::string &spot) -> std::string { // reads of the voice's channels
            std::string f;
            WState &Q = const_cast<WState &>(S); // a voice met for the first time is remembered
            if (!voice(Q, spot, f)) return "";
            if (f == "channel") return S.ts[Chan] ? words[S.ts[Chan]] : "C";
            if (f == "nextChannel") return S.ts[Next] ? words[S.ts[Next]] : "X";
            return "";
          };
          auto count = [&](WState &S, int slot, const std::string &k, int d) { // multiset of signed keys as text
            std::map<std::string, int> ms;
            std::string s = words[S.ts[slot]], cur;
            for (char ch : s) if (ch == ';') { ms[cur.substr(1)] += cur[0] == '+' ? 1 : -1; cur.clear(); } else cur += ch;
            ms[k] += d;
            std::string o;
            for (auto &e : ms) for (int i = 0; i < abs(e.second); i++) o += (e.second > 0 ? "+" : "-") + e.first + ";";
            S.ts[slot] = intern(o);
          };
          auto synthOf = [&](const std::string &c) { return spell("*a0.pSynth[shr(" + c + ",4)]"); };
          auto poolOf = [&](const std::string &c) { std::string y = synthOf(c); return spell(y + ".poolCount[*" + y + ".channels[" + spell("and(" + c + ",15)") + "].pool]"); };
          auto ended = [&](WState &S, bool yes) { // has the sound ended, says the synthesizer; yes: for certain, no: possibly
            bool any = false, all = false;
            for (auto &J : instructions(*F))
              if (auto *B = dyn_cast<CallBase>(&J); B && calleeName(B) == "WT_UpdateVoice") {
                CR r = W.get(S, B);
                any |= r.contains(APInt(r.getBitWidth(), 1)), all |= !r.contains(APInt(r.getBitWidth(), 0));
              }
            return yes ? all : any;
          };
          auto settle = [&](WState &S, const Instruction *I) {
            obligations++;
            if (render && st) {
              int u = S.ts[Turn] & 15;
              if (!u) bad("silent", I, S, "a voice in use is not synthesized");
              else if (u == 6 && ended(S, false) && !(S.ts[Turn] & 16)) bad("stuck", I, S, "a stolen voice whose sound has ended may never get to its next note");
              else if (u != 6 && ended(S, false) && !(S.ts[Turn] & 32)) bad("leak", I, S, "a voice whose sound has ended is not freed");
            }
            int to = S.ts[State];
            std::string c0 = "C", c1 = S.ts[Chan] ? words[S.ts[Chan]] : "C", x0 = "X", x1 = S.ts[Next] ? words[S.ts[Next]] : "X";
            if (same) x0 = "C", x1 = x1 == "X" ? "C" : x1, c1 = c1 == "X" ? "C" : c1;
            WState E = S;
            E.ts[Active] = S.ts[Active];
            int active = recount ? 0 : (to != 0) - (st != 0);
            E.ts[Synths] = E.ts[Pools] = 0;
            if (!recount) {
              if (st != 0) count(E, Synths, synthOf(c0), -1);
              if (to != 0) count(E, Synths, synthOf(c1), 1);
              if (st != 0 && st != 4) count(E, Pools, poolOf(st == 5 ? x0 : c0), -1);
            }
            if (to != 0 && to != 4 && (!recount || own)) count(E, Pools, poolOf(to == 5 ? x1 : c1), 1);
            if (S.ts[Active] - 100 * (S.ts[Active] > 50) != active) bad("active", I, S, "the number of voices in use changes by " + std::to_string(S.ts[Active] - 100 * (S.ts[Active] > 50)) + ", not " + std::to_string(active));
            std::string what;
            if (E.ts[Synths] != S.ts[Synths]) bad("synth", I, S, "the synthesizers' voices change by {" + words[S.ts[Synths]] + "}, not {" + words[E.ts[Synths]] + "}");
            if (E.ts[Pools] != S.ts[Pools]) bad("pool", I, S, "the pools' voices change by {" + words[S.ts[Pools]] + "}, not {" + words[E.ts[Pools]] + "}");
          };
          auto isSynthNum = [&](const std::string &s) { return s == "*a1.vSynthNum"; };
          W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
            auto *t = &S.ts;
            std::string f;
            if (auto *X = dyn_cast<LoadInst>(I)) {
              if (!X->getType()->isIntegerTy() || W.canon(S, X) != X) return true;
              std::string s = sp.of(W, S, X->getPointerOperand());
              if (voice(S, s, f) && f == "voiceState") { unsigned w = X->getType()->getIntegerBitWidth(); return W.refine(S, X, CR(APInt(w, (*t)[State]))); }
              return true;
            }
            if (auto *Cm = dyn_cast<ICmpInst>(I); Cm && Cm->isEquality() && Cm->getOperand(0)->getType()->isPointerTy() && st == 5 && !recount) {
              std::string a = spell(sp.of(W, S, Cm->getOperand(0))), b = spell(sp.of(W, S, Cm->getOperand(1))), c = "*a0.pSynth[C>>4]";
              if ((a == c || b == c) && (a == b || a == "*a0.pSynth[X>>4]" || b == "*a0.pSynth[X>>4]")) return W.refine(S, I, CR(APInt(1, (a == b) == (Cm->getPredicate() == ICmpInst::ICMP_EQ))));
              return true;
            }
            if (auto *Cm = dyn_cast<ICmpInst>(I); Cm && Cm->getOperand(0)->getType()->isIntegerTy()) {
              std::string a = spell(sp.num(W, S, Cm->getOperand(0))), b = spell(sp.num(W, S, Cm->getOperand(1)));
              if (a > b) std::swap(a, b);
              std::optional<bool> eq;
              if (Cm->isEquality()) {
                if (a == "C" && b == "X" && st == 5) eq = false;
                if ((a == "C" || a == "C>>4") && a == b) eq = true;
                if (a == "C>>4" && b == "X>>4" && st == 5 && !recount) eq = false;
                if (recount && isSynthNum(a) && (b == "C>>4" || b == "X>>4")) eq = own;
                if (eq) return W.refine(S, I, CR(APInt(1, *eq == (Cm->getPredicate() == ICmpInst::ICMP_EQ))));
              }
              if (start) { // which of the two limits holds: 0 no limit of the synthesizer's own, 1 it is the greater one, 2 it is not
                a = sp.num(W, S, Cm->getOperand(0)), b = sp.num(W, S, Cm->getOperand(1));
                auto pr = Cm->getPredicate();
                if (b == "*a1.maxPolyphony" && a == "0") std::swap(a, b), pr = ICmpInst::getSwappedPredicate(pr);
                if (a == "*a1.maxPolyphony" && b == "0") {
                  std::optional<bool> d;
                  if (Cm->isEquality()) d = (m == 0) == (pr == ICmpInst::ICMP_EQ);
                  else if (pr == ICmpInst::ICMP_UGT || pr == ICmpInst::ICMP_SGT) d = m != 0;
                  else if (pr == ICmpInst::ICMP_ULE || pr == ICmpInst::ICMP_SLE) d = m == 0;
                  if (d) return W.refine(S, I, CR(APInt(1, *d)));
                }
                if (a == "*a1.maxPolyphony" && b == "*a0.maxPolyphony") std::swap(a, b), pr = ICmpInst::getSwappedPredicate(pr);
                if (a == "*a0.maxPolyphony" && b == "*a1.maxPolyphony") {
                  auto u = ICmpInst::getSignedPredicate(pr);
                  std::optional<bool> d;
                  if (u == ICmpInst::ICMP_SLT || u == ICmpInst::ICMP_SLE) { if (m == 1) d = true; if (m == 2 && u == ICmpInst::ICMP_SLT) d = false; if (m == 0) d = false; }
                  if (u == ICmpInst::ICMP_SGE || u == ICmpInst::ICMP_SGT) { if (m == 1) d = false; if (m == 2 && u == ICmpInst::ICMP_SGE) d = true; if (m == 0) d = true; }
                  if (d) return W.refine(S, I, CR(APInt(1, *d)));
                }
              }
              return true;
            }
            if (auto *X = dyn_cast<StoreInst>(I)) {
              std::string s = sp.of(W, S, X->getPointerOperand());
              if (s.compare(0, 3, "a0.") && s.compare(0, 3, "a1.") && s.compare(0, 3, "a2.") && s.find("pSynth[") == std::string::npos) return true;
              if (X->getValueOperand()->getType()->isPointerTy()) return true;
              std::string v = sp.num(W, S, X->getValueOperand());
              if (voice(S, s, f)) {
                if (f == "voiceState") { CR r = W.get(S, X->getValueOperand()); if (r.isSingleElement() && r.getSingleElement()->ult(6)) (*t)[State] = r.getSingleElement()->getZExtValue(); else bad("state", X, S, "its state is not known"); }
                bool isNew = (f == "channel" && start) || (f == "nextChannel" && steal);
                if (isNew && tag.empty()) tag = v;
                if (f == "gain" && render && v == "0") (*t)[Turn] |= 16;
                if (f == "channel") (*t)[Chan] = intern(isNew ? "T" : spell(v));
                if (f == "nextChannel") (*t)[Next] = intern(isNew ? "T" : spell(v));
                return true;
              }
              auto delta = [&](const std::string &self) -> int { // the counter itself plus or minus one
                for (auto &p : {std::string(""), std::string("wrap8("), std::string("cut8("), std::string("wrap16("), std::string("wrap32(")}) {
                  std::string e = p.empty() ? "" : ")";
                  if (v == p + "add(1," + self + ")" + e) return 1;
                  if (v == p + "add(-1," + self + ")" + e || v == p + "add(255," + self + ")" + e || v == p + "add(65535," + self + ")" + e) return -1;
                }
                return 0;
              };
              int d = delta("*" + s);
              size_t dot = s.find(".poolCount[");
              bool isActive = s == "a0.activeVoices", isSynth = s.size() > 16 && s.substr(s.size() - 16) == ".numActiveVoices", isPool = dot != std::string::npos;
              if (!isActive && !isSynth && !isPool) return true;
              if (isPool && recount && v == "0") return true;
              obligations++;
              if (!d) { bad(isActive ? "active" : isSynth ? "synth" : "pool", X, S, "a counter is set to something else than one more or one less (" + v + ")"); return true; }
              if (isActive) { (*t)[Active] += d; if ((*t)[Active] < 0) (*t)[Active] += 100; }
              else count(S, isSynth ? Synths : Pools, isSynth ? spell(s.substr(0, s.size() - 16)) : spell(s), d);
              if (start && isActive && d > 0) { // the limits hold
                bool all = false, syn = false;
                for (auto &J : instructions(*F))
                  if (auto *Cm = dyn_cast<ICmpInst>(&J)) {
                    CR r = W.get(S, Cm);
                    if (!r.isSingleElement()) continue;
                    auto pr = r.getSingleElement()->isOne() ? Cm->getPredicate() : Cm->getInversePredicate();
                    std::string a = sp.num(W, S, Cm->getOperand(0)), b = sp.num(W, S, Cm->getOperand(1));
                    auto u = ICmpInst::getSignedPredicate(pr);
                    if (u == ICmpInst::ICMP_SGT) std::swap(a, b), u = ICmpInst::ICMP_SLT;
                    if (u != ICmpInst::ICMP_SLT) continue;
                    if (a == "*a0.activeVoices" && b == "*a0.maxPolyphony") all = true;
                    if (a == "*a1.numActiveVoices" && (b == "*a1.maxPolyphony" ? m != 0 : b == "*a0.maxPolyphony" && m != 2)) syn = true;
                  }
                obligations += 2;
                if (!all) bad("limit", X, S, "a voice is started without regard to the polyphony");
                if (!syn) bad("limit", X, S, "a voice is started without regard to the polyphony of its synthesizer");
              }
              return true;
            }
            auto *B = dyn_cast<CallBase>(I);
            if (!B || isDbg(B) || isField0(B) || isa<IntrinsicInst>(B)) return true;
            std::string n = calleeName(B);
            auto me = [&](unsigned k) { std::string f, s = sp.num(W, S, B->getArgOperand(k)); return words[S.ts[Vox]] == s || (fn.voice == "a0.voices[" + s + "]."); };
            auto pool = [&](int from) { if (from != 0 && from != 4) count(S, Pools, poolOf(from == 5 ? (S.ts[Next] ? words[S.ts[Next]] : same ? "C" : "X") : S.ts[Chan] ? words[S.ts[Chan]] : "C"), -1); };
            if (n == "VMMuteVoice") { if (!me(1)) bad("voice", B, S, "another voice is muted"); else if ((*t)[State] != 0 && (*t)[State] != 4) { pool((*t)[State]); (*t)[State] = 4; } }
            if (n == "VMReleaseVoice") { if (!me(2)) bad("voice", B, S, "another voice is released"); else if ((*t)[State] == 5) bad("release", B, S, "a stolen voice is released"); else if ((*t)[State] == 1 || (*t)[State] == 2) (*t)[State] = 3; }
            if (n == "VMFreeVoice") {
              std::string s = sp.of(W, S, B->getArgOperand(2));
              if (!voice(S, s, f) || !f.empty()) { bad("voice", B, S, "another voice is freed"); return true; }
              if (render) {
                obligations++;
                if ((*t)[State] == 5) bad("lost", B, S, "a stolen voice is freed, the note waiting for it is never played");
                if (!ended(S, true)) bad("cut", B, S, "a voice is freed that has not ended");
                (*t)[Turn] |= 32;
              }
              if ((*t)[State]) { pool((*t)[State]); count(S, Synths, synthOf(S.ts[Chan] ? words[S.ts[Chan]] : "C"), -1); (*t)[Active] += (*t)[Active] ? -1 : 99; (*t)[State] = 0; }
              if (spell(sp.of(W, S, B->getArgOperand(1))) != synthOf(S.ts[Chan] ? words[S.ts[Chan]] : "C")) bad("free", B, S, "it is taken off the count of another synthesizer than the one of its channel");
            }
            if (n == "WT_UpdateVoice" && render) {
              std::string s = sp.of(W, S, B->getArgOperand(2)), y = spell(sp.of(W, S, B->getArgOperand(1)));
              obligations++;
              if (!voice(S, s, f) || !f.empty()) bad("voice", B, S, "another voice is synthesized");
              else if ((*t)[State] == 0) bad("free", B, S, "a free voice is synthesized");
              else if ((*t)[Turn]) bad("twice", B, S, "a voice is synthesized twice");
              else if (y != synthOf(S.ts[Chan] ? words[S.ts[Chan]] : "C")) bad("synth", B, S, "it is synthesized for another synthesizer than the one of its channel");
              else (*t)[Turn] = 1 + (*t)[State];
            }
            if (n == "VMRetargetStolenVoice") {
              std::string c = S.ts[Chan] ? words[S.ts[Chan]] : "C", x = S.ts[Next] ? words[S.ts[Next]] : same ? "C" : "X";
              if (!me(1)) bad("voice", B, S, "the note of another voice is started");
              else if ((*t)[State] != 5) bad("retarget", B, S, "a voice that was not stolen is given its next note");
              else { count(S, Synths, synthOf(c), -1); count(S, Synths, synthOf(x), 1); (*t)[Chan] = intern(x); (*t)[Next] = intern("U"); (*t)[State] = 1; }
            }
            if (n == "InitVoice" || n == "VMInitializeVoice") {
              std::string s = sp.of(W, S, B->getArgOperand(0));
              if (voice(S, s, f)) { (*t)[State] = 0; (*t)[Chan] = intern("U"); (*t)[Next] = intern("U"); }
            }
            return true;
          };
          auto fresh = [&](WState &S, const Loop *L) {
            for (auto it = S.fact.begin(); it != S.fact.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.fact.erase(it) : std::next(it); }
            for (auto it = S.same.begin(); it != S.same.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.same.erase(it) : std::next(it); }
            S.mem.clear();
            S.ts.assign(N, 0);
            S.ts[State] = st;
          };
          if (fn.loop) W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
            for (auto *L : fi.loops()) {
              bool a = L->contains(from), b = L->contains(to);
              if (a && !b && from == L->getHeader()) fresh(S, L);
              else if (a && (!b || to == L->getHeader())) {
                if (S.ts[Vox]) settle(S, from->getTerminator()), turns++;
                fresh(S, L);
              } else if (!a && b) fresh(S, L);
            }
          };
          long turnsBefore = turns;
          W.ret = [&](const ReturnInst *Rt, WState &S) {
            if (fn.loop) return;
            if (start && !S.ts[Vox]) { obligations++; return; }
            settle(S, Rt);
          };
          W.run(init);
          if (W.overflow) R.broken.push_back(std::string(fn.name) + ": too many states");
          if (fn.loop && turns == turnsBefore) R.broken.push_back(std::string(fn.name) + ": no turn of a loop over the voices was seen");
        }
    }
    // a voice said to be available is free
    if (auto *F = P.M->getFunction("VMFindAvailableVoice"); F && !F->isDeclaration() && F->arg_size() == 4) {
      Walk W(P, *F, MR);
      W.maxStates = 200;
      FnInfo fi(*F);
      Spots sp{P};
      std::map<const PHINode *, int> phis;
      sp.extra = [&](const Value *v) -> std::string { if (auto *Ph = dyn_cast<PHINode>(v); Ph && Ph->getType()->isIntegerTy()) return "p" + std::to_string(phis.insert({Ph, (int)phis.size()}).first->second); return ""; };
      std::vector<std::string> words{""};
      std::map<std::string, int> ids{{"", 0}};
      auto intern = [&](const std::string &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; words.push_back(s); return ids[s] = (int)words.size() - 1; };
      WState init;
      init.ts = {0, 0}; // voice known to be free; number handed out
      W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
        auto *L = fi.LI.getLoopFor(to);
        if (!L || L->getHeader() != to) return;
        for (auto it = S.fact.begin(); it != S.fact.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.fact.erase(it) : std::next(it); }
        for (auto it = S.same.begin(); it != S.same.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.same.erase(it) : std::next(it); }
        S.ts = {0, 0};
      };
      auto freeOnes = [&](WState &S) { // voices whose state was read and is known to be 0
        std::set<std::string> r;
        for (auto &J : instructions(*F))
          if (auto *X = dyn_cast<LoadInst>(&J)) {
            std::string f, n = voiceOf(sp.of(W, S, X->getPointerOperand()), f);
            if (f != "voiceState") continue;
            CR v = W.get(S, X);
            if (v.isSingleElement() && v.getSingleElement()->isZero()) r.insert(n);
          }
        return r;
      };
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
        if (auto *X = dyn_cast<StoreInst>(I); X && X->getPointerOperand() == F->getArg(1)) S.ts[1] = intern(sp.num(W, S, X->getValueOperand()));
        return true;
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) {
        obligations++;
        CR r = W.get(S, Rt->getReturnValue());
        if (!r.contains(APInt(r.getBitWidth(), 0))) return; // says there is none
        if (!freeOnes(S).count(words[S.ts[1]])) R.add("count:VMFindAvailableVoice:free", loc(Rt), "looking for a free voice: a voice is handed out that was not found to be free", Walk::path(S));
      };
      W.run(init);
      if (W.overflow) R.broken.push_back("VMFindAvailableVoice: too many states");
    } else R.broken.push_back("VMFindAvailableVoice is not there");
    // lowering a limit: the voices counted and the voices chosen are those that sound (of the stream, for its own limit)
    for (int k = 0; k < 2; k++) {
      const char *fn = k ? "VMSetPolyphony" : "VMSetSynthPolyphony";
      auto *F = P.M->getFunction(fn);
      if (!F || F->isDeclaration() || F->arg_size() != 3) { R.broken.push_back(std::string(fn) + " is not there"); continue; }
      FnInfo fi(*F);
      std::map<const PHINode *, std::map<int, std::set<int>>> moves; // number carried round a loop over the voices -> case -> by how much it moves (9: to something else)
      std::map<const PHINode *, std::map<int, std::vector<std::string>>> where;
      std::set<const PHINode *> index;
      std::set<const Loop *> inner;
      for (auto *L : fi.loops()) if (L->getSubLoops().empty()) inner.insert(L);
      bool chosen = false, counted = false, muted = false;
      for (int st = 0; st < 6; st++)
        for (int m = 0; m < 4; m++) {
          if (st != 5 && m > 1) continue; // of this stream: by its channel; a stolen one: by its next one as well
          if (!k && m) continue;
          bool cur = m & 1, next = st == 5 ? bool(m & 2) : false, mine = !k || (st == 5 ? next : cur), want = st != 0 && st != 4 && mine;
          cases++;
          Walk W(P, *F, MR);
          W.maxStates = 400;
          std::map<const PHINode *, int> phis;
          Spots sp{P};
          sp.extra = [&](const Value *v) -> std::string { if (auto *Ph = dyn_cast<PHINode>(v); Ph && Ph->getType()->isIntegerTy()) return "p" + std::to_string(phis.insert({Ph, (int)phis.size()}).first->second); return ""; };
          std::string f;
          sp.field = [&](const WState &, const std::string &spot) -> std::string {
            if (voiceOf(spot, f).empty()) return "";
            return f == "channel" ? "C" : f == "nextChannel" ? "X" : "";
          };
          W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
            auto *L = fi.LI.getLoopFor(I->getParent());
            if (auto *X = dyn_cast<LoadInst>(I); X && inner.count(L) && X->getType()->isIntegerTy() && W.canon(S, X) == X) {
              std::string f;
              if (!voiceOf(sp.of(W, S, X->getPointerOperand()), f).empty() && f == "voiceState") { unsigned w = X->getType()->getIntegerBitWidth(); return W.refine(S, X, CR(APInt(w, st))); }
            }
            if (auto *Cm = dyn_cast<ICmpInst>(I); Cm && inner.count(L) && Cm->isEquality() && Cm->getOperand(0)->getType()->isIntegerTy()) {
              std::string a = sp.num(W, S, Cm->getOperand(0)), b = sp.num(W, S, Cm->getOperand(1));
              if (a > b) std::swap(a, b);
              if (a == "*a1.vSynthNum") for (int x = 0; x < 2; x++) {
                std::string c = x ? "X" : "C";
                if (b == "shr(" + c + ",4)" || b == "div(" + c + ",16)") return W.refine(S, I, CR(APInt(1, (x ? next : cur) == (Cm->getPredicate() == ICmpInst::ICMP_EQ))));
              }
            }
            auto *B = dyn_cast<CallBase>(I);
            if (B && (calleeName(B) == "VMMuteVoice" || calleeName(B) == "VMReleaseVoice")) muted = true;
            return true;
          };
          W.leave = [&](const BasicBlock *from, const BasicBlock *to, const WState &S) {
            for (auto *L : inner)
              if (to == L->getHeader() && L->contains(from))
              for (auto &J : *L->getHeader()) {
                auto *Ph = dyn_cast<PHINode>(&J);
                if (!Ph) break;
                if (!Ph->getType()->isIntegerTy()) continue;
                auto addRec = [&](const Value *v) { auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(v))); return AR && AR->getLoop() == L && AR->isAffine(); };
                if (addRec(Ph)) continue;
                auto *v = W.canon(S, Ph->getIncomingValueForBlock(from));
                std::string me = sp.num(W, S, Ph), t = sp.num(W, S, v);
                int d = t == me ? 0 : t == "add(1," + me + ")" || t == "wrap32(add(1," + me + "))" || t == "wrap16(add(1," + me + "))" ? 1 : addRec(v) ? 5 : 9;
                moves[Ph][st * 2 + mine].insert(d);
                if (d) where[Ph][st * 2 + mine] = Walk::path(S);
              }
          };
          W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) { // each turn by itself
            for (auto *L : fi.loops()) {
              if (to != L->getHeader()) continue;
              for (auto it = S.fact.begin(); it != S.fact.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.fact.erase(it) : std::next(it); }
              for (auto it = S.same.begin(); it != S.same.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.same.erase(it) : std::next(it); }
              S.mem.clear();
            }
          };
          WState init;
          init.ts = {0};
          W.run(init);
        }
      for (auto &p : moves) {
        bool picks = false;
        bool counts = true, some = false;
        for (auto &c : p.second) { picks |= c.second.count(5); for (int d : c.second) counts &= d < 2, some |= d == 1; }
        counts &= some;
        if (!picks && !counts) continue;
        chosen |= picks, counted |= counts;
        for (auto &c : p.second) {
          obligations++;
          bool want = c.first & 1 && c.first / 2 != 0 && c.first / 2 != 4;
          const char *sn[6] = {"a free voice", "a voice that just started", "a playing voice", "a releasing voice", "a muting voice", "a stolen voice"};
          std::string v = std::string(sn[c.first / 2]) + (k ? c.first & 1 ? " of the stream" : " of another stream" : "");
          if (picks && !want && c.second.count(5)) R.add(std::string("count:") + fn + ":choice", loc(p.first->getParent()->getTerminator()), "lowering the limit of voices: " + v + " is chosen to be silenced", where[p.first][c.first]);
          if (picks && want && !c.second.count(5)) R.add(std::string("count:") + fn + ":choice", loc(p.first->getParent()->getTerminator()), "lowering the limit of voices: " + v + " is never chosen to be silenced", where[p.first][c.first]);
          if (counts && c.second != std::set<int>{want}) R.add(std::string("count:") + fn + ":sum", loc(p.first->getParent()->getTerminator()), "lowering the limit of voices: " + v + (want ? " is not counted" : " is counted as sounding"), where[p.first][c.first]);
        }
      }
      obligations++;
      if (!muted) R.add(std::string("count:") + fn + ":none", locF(F), "lowering the limit of voices silences none");
      R.stats["limit_loops"] += chosen + counted;
    }
    // nobody else keeps the books
    for (auto &F : *P.M) {
      bool known = false;
      for (auto &fn : fns) known |= F.getName() == fn.name;
      if (F.isDeclaration() || known || F.getName().starts_with("sv.")) continue;
      for (auto &I : instructions(F))
        if (auto *X = dyn_cast<StoreInst>(&I)) {
          std::string f = decompose(X->getPointerOperand()).field(P);
          size_t dot = f.find('.');
          f = dot == std::string::npos ? f : f.substr(dot + 1);
          bool ours = f == "voiceState" || f == "nextChannel" || f == "activeVoices" || f == "numActiveVoices" || f == "poolCount" || (f == "channel" && decompose(X->getPointerOperand()).field(P) == "s_synth_voice_tag.channel");
          if (!ours) continue;
          obligations++;
          auto *K = dyn_cast<ConstantInt>(X->getValueOperand());
          bool one = K && f == "voiceState" && K->getValue() == 2;                                 // a voice in its release is taken up again (see the pedal)
          bool blank = F.getName() == "InitVoice" || F.getName() == "VMReset";                      // voices that have never been used; see below
          if (!one && !blank) R.add("count:others:" + F.getName().str() + ":" + f, loc(X), "the state, the channel or the number of voices is changed where voices are neither started, ended nor handed over");
        }
    }
    if (auto *F = P.M->getFunction("VMReset"); F && !F->isDeclaration() && F->arg_size() == 3) {
      Walk W(P, *F, MR);
      W.maxStates = 200;
      FnInfo fi(*F);
      Spots sp{P};
      WState init;
      init.ts = {0, 0, 0, 0}; // taken off; none left; voices blanked; pools emptied
      auto bad = [&](const Instruction *I, WState &S, const std::string &t) { R.add("count:VMReset", loc(I), "resetting a synthesizer: " + t, Walk::path(S)); };
      W.edge = [&](const BasicBlock *from, const BasicBlock *to, WState &S) {
        auto *L = fi.LI.getLoopFor(to);
        if (!L || L->getHeader() != to) return;
        for (auto it = S.fact.begin(); it != S.fact.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.fact.erase(it) : std::next(it); }
        for (auto it = S.same.begin(); it != S.same.end();) { auto *I = dyn_cast<Instruction>(it->first); it = I && L->contains(I) ? S.same.erase(it) : std::next(it); }
      };
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &) -> bool {
        if (auto *X = dyn_cast<StoreInst>(I); X && X->getValueOperand()->getType()->isIntegerTy()) {
          std::string s = sp.of(W, S, X->getPointerOperand()), v = sp.num(W, S, X->getValueOperand());
          if (s == "a0.activeVoices") { obligations++; if (v.find("*a0.activeVoices") == std::string::npos || v.find("*a1.numActiveVoices") == std::string::npos || S.ts[1] || S.ts[0]) bad(X, S, "the number of voices in use becomes " + v); S.ts[0] = 1; }
          if (s == "a1.numActiveVoices") { obligations++; if (v != "0" || !S.ts[0]) bad(X, S, "the synthesizer's number of voices becomes " + v + (S.ts[0] ? "" : " before they are taken off the voices in use")); S.ts[1] = 1; }
          if (s.compare(0, 13, "a1.poolCount[") == 0) {
            obligations++;
            bool none = S.ts[1];
            for (auto &J : instructions(*F)) if (auto *Y = dyn_cast<LoadInst>(&J); Y && Y->getType()->isIntegerTy() && sp.of(W, S, Y->getPointerOperand()) == "a1.numActiveVoices") { CR r = W.get(S, Y); none |= r.isSingleElement() && r.getSingleElement()->isZero(); }
            if (v != "0" || !none) bad(X, S, "a pool's number of voices becomes " + v + (none ? "" : " while voices may be in use"));
          }
        }
        if (auto *B = dyn_cast<CallBase>(I); B && calleeName(B) == "VMInitializeAllVoices") { obligations++; if (sp.num(W, S, B->getArgOperand(1)).find("*a1.vSynthNum") == std::string::npos) bad(B, S, "the voices of another synthesizer are ended"); S.ts[2] = 1; }
        return true;
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) {
        obligations++;
        if (S.ts[0] != S.ts[1] || S.ts[0] != S.ts[2]) bad(Rt, S, S.ts[2] ? "voices are ended that are still counted" : "voices that still play are not counted");
      };
      W.run(init);
      if (W.overflow) R.broken.push_back("VMReset: too many states");
    } else R.broken.push_back("VMReset is not there");
    R.stats["voice_turns"] = turns;
    R.stats["obligations"] = obligations;
    R.stats["cases"] = cases;
  }
  long turns = 0;
  void run() {
    allVoices();
    startNote();
    handOver();
    R.stats["obligations"] = obligations;
    R.stats["cases"] = cases;
  }
};
void select(Ctx &C, Report &R) { Select X(C, R); X.run(); }
NormOpts sopts() {
  NormOpts o;
  o.into = {"VMSetPolyphony", "VMSetSynthPolyphony", "VMReset", "VMInitializeAllVoices", "VMMuteAllVoices", "VMReleaseAllVoices", "VMAddSamples", "VMMIPUpdateChannelMuting", "VMFindAvailableVoice", "VMFreeVoice", "VMMuteVoice", "VMReleaseVoice", "VMCheckPolyphonyLimiting", "VMStopNote", "VMStartNote", "VMReleaseAllDeferredNoteOffs", "VMCatchNotesForSustainPedal", "VMAllNotesOff", "VMDeferredStopNote", "VMProgramChange", "VMFindProgram", "VMFindDLSProgram", "VMStartVoice", "VMStolenVoice", "VMRetargetStolenVoice"};
  o.keep = {"VMStartVoice", "VMReleaseVoice", "VMMuteVoice", "VMFindProgram", "VMFindDLSProgram", "VMStopNote", "VMStartNote", "VMReleaseAllDeferredNoteOffs", "VMCatchNotesForSustainPedal", "VMAllNotesOff", "VMDeferredStopNote", "VMProgramChange",
            "VMStolenVoice", "VMRetargetStolenVoice", "VMFreeVoice", "VMStealVoice", "VMCheckPolyphonyLimiting", "VMCheckKeyGroup", "VMFindAvailableVoice", "VMUpdateAllNotesAge", "WT_ReleaseVoice", "WT_MuteVoice", "WT_SustainPedal", "WT_StartVoice", "WT_UpdateVoice"};
  return o;
}
void account(Ctx &C, Report &R) { Select X(C, R); X.account(); }
NormOpts aopts() {
  NormOpts o = sopts();
  o.keep.insert("InitVoice");
  o.keep.insert("VMInitializeAllVoices");
  o.keep.insert("VMMIPUpdateChannelMuting");
  return o;
}
void taking(Ctx &C, Report &R) { Select X(C, R); X.taking(); R.stats["obligations"] = X.obligations; R.stats["cases"] = X.cases; }
void exclusive(Ctx &C, Report &R) { Select X(C, R); X.exclusive(); R.stats["obligations"] = X.obligations; R.stats["cases"] = X.cases; }
Reg reg("select", select, sopts()), reg2("account", account, aopts()), reg3("exclusive", exclusive, sopts()), reg4("taking", taking, sopts());
} // namespace
