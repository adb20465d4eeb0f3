// How a Standard MIDI File becomes a sequence of timed events: the numbers it is read with, what follows each event,
// the order in which the tracks are merged and the time that passes.
#include "iter.h"

namespace {
const int OK = 0, FAIL = 1, EOFF = 2;
struct Smf {
  Ctx &C;
  Report &R;
  Program &P;
  ModRef MR;
  Smf(Ctx &C, Report &R) : C(C), R(R), P(C.P), MR(C.P) {}
  long numbers = 0, paths = 0, obligations = 0;

  enum Kind { None, VarLen, Counted, Feeding, Plain };
  struct LoopFact { Kind k = None; const Value *result = nullptr; const PHINode *acc = nullptr; std::string bad; const CallBase *read = nullptr; };
  std::map<Loop *, LoopFact> facts;

  static const CallBase *isCall(const Instruction *I, const char *n) { auto *B = dyn_cast<CallBase>(I); return B && calleeName(B) == n ? B : nullptr; }

  // ---- numbers read byte by byte ------------------------------------------------------------
  void classify(FnInfo &fi, Walk &W) {
    WState S;
    for (auto *L : fi.loops()) {
      const CallBase *rd = nullptr;
      for (auto *B : L->blocks()) if (fi.LI.getLoopFor(B) == L) for (auto &I : *B) if (auto *c = isCall(&I, "EAS_HWGetByte")) rd = rd ? nullptr : c;
      if (!rd) continue;
      LoopFact f;
      f.read = rd;
      auto *cell = stripCasts(rd->getArgOperand(2));
      Syms sy;
      std::vector<const Value *> bytes;
      for (auto *B : L->blocks()) for (auto &I : *B)
        if (auto *Ld = dyn_cast<LoadInst>(&I); Ld && stripCasts(Ld->getPointerOperand()) == cell && Ld->getType()->isIntegerTy(8)) bytes.push_back(Ld);
      if (bytes.empty()) continue;
      for (auto *b : bytes) sy.id[b] = 0;
      std::function<bool(const Value *, int)> usesByte = [&](const Value *v, int d) -> bool {
        if (std::find(bytes.begin(), bytes.end(), v) != bytes.end()) return true;
        auto *I = dyn_cast<Instruction>(v);
        if (!I || !d || isa<PHINode>(I) || isa<CallBase>(I) || isa<LoadInst>(I)) return false;
        for (auto &o : I->operands()) if (usesByte(o, d - 1)) return true;
        return false;
      };
      // exits
      bool byteExit = false;
      SmallVector<BasicBlock *, 8> ex;
      L->getExitingBlocks(ex);
      for (auto *B : ex) {
        auto *Br = dyn_cast<BranchInst>(B->getTerminator());
        if (!Br || !Br->isConditional()) continue;
        if (usesByte(Br->getCondition(), 8)) byteExit = true;
      }
      const PHINode *acc = nullptr;
      const Value *next = nullptr;
      for (auto &Ph : L->getHeader()->phis()) {
        if (!Ph.getType()->isIntegerTy()) continue;
        for (unsigned i = 0; i < Ph.getNumIncomingValues(); i++)
          if (L->contains(Ph.getIncomingBlock(i)) && usesByte(Ph.getIncomingValue(i), 8)) acc = &Ph, next = Ph.getIncomingValue(i);
      }
      std::string where = loc(rd);
      if (!acc) { f.k = byteExit ? None : Feeding; facts[L] = f; continue; }
      numbers++;
      unsigned w = acc->getType()->getIntegerBitWidth();
      Bits D = Syms::leaf(sy.of(acc), w, CR::getFull(w)), c = Syms::leaf(0, 8, CR::getFull(8)).zext(w);
      Bits got = sy.eval(W, S, next);
      f.acc = acc;
      f.k = byteExit ? VarLen : Counted;
      f.result = byteExit ? next : acc;
      for (unsigned i = 0; i < acc->getNumIncomingValues(); i++)
        if (!L->contains(acc->getIncomingBlock(i))) {
          auto *K = dyn_cast<ConstantInt>(acc->getIncomingValue(i));
          if (!K || !K->isZero()) R.add("number:start", where, "a number of the file does not start from 0");
        }
      if (byteExit) {
        R.note("variable_length", where);
        if (!(got == (D.shl(7) | (c & Bits::num(w, 0x7f)))))
          R.add("number:bits", where, "a variable-length quantity is not put together from seven bits of each byte, first byte first");
        for (auto *B : ex) {
          auto *Br = dyn_cast<BranchInst>(B->getTerminator());
          if (!Br || !Br->isConditional()) continue;
          bool onRead = false;
          if (auto *Cm = dyn_cast<ICmpInst>(Br->getCondition())) onRead = Cm->getOperand(0) == rd || Cm->getOperand(1) == rd;
          if (onRead) continue;
          if (!usesByte(Br->getCondition(), 8)) { R.add("number:end", loc(Br), "a variable-length quantity can end without a byte whose top bit is clear"); continue; }
          for (unsigned x = 0; x < 256; x++) {
            std::map<const Value *, APInt> k;
            for (auto *b : bytes) k.insert_or_assign(b, APInt(8, x));
            auto v = fold(Br->getCondition(), k);
            if (!v) {
              std::function<bool(const Value *, int)> usesAcc = [&](const Value *v, int d) -> bool {
                if (v == acc) return true;
                auto *I = dyn_cast<Instruction>(v);
                if (!I || !d || isa<PHINode>(I) || isa<CallBase>(I) || isa<LoadInst>(I)) return false;
                for (auto &o : I->operands()) if (usesAcc(o, d - 1)) return true;
                return false;
              };
              if (usesAcc(Br->getCondition(), 10)) R.add("number:end", loc(Br), "whether a variable-length quantity ends depends on more than the top bit of its bytes");
              break;
            }
            bool stays = L->contains(Br->getSuccessor(v->isOne() ? 0 : 1));
            obligations++;
            if (stays != (x >= 0x80)) { R.add("number:end", loc(Br), "a variable-length quantity does not end exactly at the byte whose top bit is clear"); break; }
          }
        }
      } else {
        R.note("counted_numbers", where);
        if (!(got == (D.shl(8) | c))) R.add("number:bits", where, "a number of several bytes is not put together first byte first");
      }
      facts[L] = f;
    }
  }

  // sum of values as a list
  void terms(Walk &W, const WState &S, const Value *v, std::vector<const Value *> &t, long &k, int depth = 10) {
    auto isNumber = [&](const Value *x) { for (auto &lf : facts) if (lf.second.result == x) return true; return false; };
    if (isNumber(v)) { t.push_back(v); return; }
    v = W.canon(S, v);
    if (isNumber(v)) { t.push_back(v); return; }
    if (auto *K = dyn_cast<ConstantInt>(v)) { k += K->getSExtValue(); return; }
    if (auto *I = dyn_cast<CastInst>(v); I && I->getType()->isIntegerTy()) return terms(W, S, I->getOperand(0), t, k, depth);
    if (auto *B = dyn_cast<BinaryOperator>(v); B && depth && B->getOpcode() == Instruction::Add) { terms(W, S, B->getOperand(0), t, k, depth - 1); terms(W, S, B->getOperand(1), t, k, depth - 1); return; }
    t.push_back(v);
  }

  // a path on which the tempo is known to be out of range
  static bool limited(Walk &W, const WState &S, const std::function<std::string(const Value *)> &name, const std::string &formula, int depth = 3) {
    Norm nm{W, S, name};
    for (auto &f : S.fact) {
      auto *v = f.first;
      if (!v->getType()->isIntegerTy()) continue;
      auto &r = f.second;
      if (auto *E = dyn_cast<ExtractValueInst>(v); E && isa<WithOverflowInst>(E->getAggregateOperand()) && E->getIndices()[0] == 1 && r.isSingleElement() && r.getSingleElement()->isOne()) return true;
      // a part of the computation does not survive being cut
      if (auto *Cm = dyn_cast<ICmpInst>(v); Cm && r.isSingleElement() && r.getSingleElement()->isOne() == (Cm->getPredicate() == ICmpInst::ICMP_NE) && Cm->isEquality()) {
        std::string a = nm.str(Cm->getOperand(0)), b = nm.str(Cm->getOperand(1));
        for (auto *x : {&a, &b}) if (x->substr(0, 5) == "cut64") *x = x->substr(6, x->size() - 7);
        if (a == b && a.find('T') != std::string::npos) return true;
      }
      // one of two conditions holds: either would do
      auto *O = dyn_cast<BinaryOperator>(v);
      if (O && depth && v->getType()->isIntegerTy(1) && r.isSingleElement() && (O->getOpcode() == Instruction::Or ? r.getSingleElement()->isOne() : O->getOpcode() == Instruction::And && r.getSingleElement()->isZero())) {
        bool all = true;
        for (auto &op : O->operands()) {
          WState S2 = S;
          if (all && W.assume(S2, op, O->getOpcode() == Instruction::Or)) { S2.fact.erase(v); all = limited(W, S2, name, formula, depth - 1); }
        }
        if (all) return true;
      }
      std::string n = nm.str(v);
      if (n == "ppqn" && r.isSingleElement() && r.getSingleElement()->isZero()) return true;
      if (n == "T" && r.getUnsignedMin().getLimitedValue() > 4300000000ull) return true;
      if ("div(" + n + ",1000)" == formula && r.getUnsignedMin().getLimitedValue() >= 65535000) return true;
      if (n == formula && r.getUnsignedMin().getLimitedValue() >= 65535) return true;
    }
    return false;
  }

  // ---- one event ----------------------------------------------------------------------------
  enum { FailAt, Reads, LenLoop, Fed0, Unfed, Pend, Pos, Sought, Delta, Ended, Stored, Merge, TimeSt, Type, Tempo, State, Payload, Next, N };
  void event(const Function &F) {
    FnInfo fi(F);
    facts.clear();
    Walk base(P, F, MR);
    classify(fi, base);
    std::map<const CallBase *, std::unique_ptr<Argument>> ph;
    std::map<const Value *, int> ids;
    std::vector<const Value *> vals{nullptr};
    auto id = [&](const Value *v) { auto it = ids.find(v); if (it != ids.end()) return it->second; vals.push_back(v); return ids[v] = (int)vals.size() - 1; };
    std::set<const Value *> ticks0;
    merge(F, fi, "the next event");
    std::set<Loop *> merges = mergeLoops;
    struct Class { unsigned lo, hi; const char *name; enum { Midi, Syx, Meta } k; };
    std::vector<Class> cls{{0, 0x7f, "an event in running status", Class::Midi}, {0x80, 0xef, "a channel message", Class::Midi}, {0xf1, 0xf6, "a system common message", Class::Midi},
                           {0xf8, 0xfe, "a real-time message", Class::Midi}, {0xf0, 0xf0, "a SysEx event", Class::Syx}, {0xf7, 0xf7, "a SysEx continuation", Class::Syx}, {0xff, 0xff, "a meta event", Class::Meta}};
    for (auto &cl : cls) {
      Walk W(P, F, MR);
      W.maxStates = 64;
      WState init;
      init.ts.assign(N, 0);
      std::string nm = cl.name;
      auto bad = [&](const char *key, const Instruction *I, WState &S, const std::string &m) { R.add(std::string("event:") + key, loc(I), nm + ": " + m, Walk::path(S)); return false; };
      auto field = [&](const Value *p) { std::string f = decompose(p).field(P); return f; };
      auto ofNext = [&](WState &S, const Value *p) { // reached through the track whose turn it is
        Addr A = decompose(p);
        auto *Ld = dyn_cast<LoadInst>(A.root);
        if (!Ld) if (auto *c = W.canon(S, A.root)) Ld = dyn_cast<LoadInst>(c);
        return Ld && field(Ld->getPointerOperand()) == "s_smf_data_tag.nextStream";
      };
      const std::string tempoFormula = "div(add(500,div(mul(1024,T),ppqn)),1000)";
      std::function<std::string(const Value *)> tempoName = [&](const Value *x) -> std::string {
        for (auto &lf : facts) if (lf.second.k == Counted && x == lf.second.acc) return "T";
        if (auto *Ld = dyn_cast<LoadInst>(x)) { auto f = field(Ld->getPointerOperand()); if (f == "s_smf_data_tag.ppqn") return "ppqn"; return "?"; }
        return "";
      };
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) -> bool {
        auto &t = S.ts;
        if (auto *Ld = dyn_cast<LoadInst>(I)) {
          std::string f = field(Ld->getPointerOperand());
          if (f == "s_midi_stream_tag.pending") t[Pend] = id(Ld);
          if (f == "s_smf_data_tag.nextStream" && t[Merge]) t[Next] = id(Ld);
          if (f == "s_smf_stream_tag.ticks" && !t[Reads]) ticks0.insert(Ld);
          // the track whose turn it is has not ended
          if (f == "s_smf_stream_tag.ticks" && !t[Ended] && !t[Stored] && !t[Merge] && ofNext(S, Ld->getPointerOperand())) return W.refine(S, Ld, CR(APInt(64, 0), APInt(64, 0xffffffff)));
          return true;
        }
        if (auto *St = dyn_cast<StoreInst>(I)) {
          std::string f = field(St->getPointerOperand());
          if (f == "s_smf_data_tag.state") { auto r = W.get(S, St->getValueOperand()); t[State] = r.isSingleElement() ? 1 + (int)r.getSingleElement()->getZExtValue() : -1; return true; }
          if (f == "s_smf_stream_tag.ticks") {
            obligations++;
            auto *v = W.canon(S, St->getValueOperand());
            auto *K = dyn_cast<ConstantInt>(v);
            if (!ofNext(S, St->getPointerOperand())) return bad("track", I, S, "the time of another track is changed");
            if (K && K->getZExtValue() == 0xffffffff) {
              bool eot = cl.k == Class::Meta && t[Type] && [&] { auto r = W.get(S, vals[t[Type]]); return r.isSingleElement() && *r.getSingleElement() == 0x2f; }();
              if (t[FailAt] == OK && !eot) return bad("end", I, S, "the track ends although there is no end-of-track event");
              t[Ended] = 1;
              return true;
            }
            std::vector<const Value *> tm;
            long k = 0;
            terms(W, S, v, tm, k);
            bool fine = t[FailAt] == OK && t[Delta] && !k && tm.size() == 2 && !t[Ended];
            if (fine) {
              int d = 0, o = 0;
              for (auto *x : tm) {
                if (x == facts[(Loop *)vals[t[Delta]]].result) d++;
                else if (auto *Ld = dyn_cast<LoadInst>(x); Ld && field(Ld->getPointerOperand()) == "s_smf_stream_tag.ticks" && ofNext(S, Ld->getPointerOperand())) o++;
              }
              fine = d == 1 && o == 1;
            }
            if (!fine) return bad("delta", I, S, "the time of the next event is not this event's time plus the delta time that follows");
            t[Stored]++;
            return true;
          }
          if (f == "s_smf_data_tag.tickConv") {
            obligations++;
            if (t[FailAt] != OK) return true;
            if (!t[Tempo]) return bad("tempo", I, S, "the tempo changes although there is no tempo event");
            bool ok = true;
            arms(W, S, St->getValueOperand(), [&](WState &S, const Value *v) {
              Norm nm{W, S, tempoName};
              if (auto *K = dyn_cast<ConstantInt>(v)) {
                if ((K->getZExtValue() & 0xffff) != 0xffff) return bad("tempo", I, S, "a tempo that is out of range is not limited to the slowest one");
                if (!(S.ts[Tempo] & 4) && !limited(W, S, tempoName, tempoFormula)) return bad("tempo", I, S, "a tempo that is not out of range is limited to the slowest one");
                return true;
              }
              std::string e = nm.str(v);
              if (e != tempoFormula) return bad("tempo", I, S, "the tempo is not converted to 1/1024 ms per tick, rounded (" + e + ")");
              if (!W.get(S, v).getUnsignedMax().ule(65535)) return bad("tempo", I, S, "a large tempo wraps instead of being limited");
              return true;
            }, ok);
            if (!ok) return false;
            t[Tempo] |= 2;
            return true;
          }
          if (f == "s_smf_data_tag.time") {
            obligations++;
            Norm nm{W, S, [&](const Value *x) -> std::string {
                      if (auto *Ld = dyn_cast<LoadInst>(x)) {
                        auto f = field(Ld->getPointerOperand());
                        if (ticks0.count(Ld)) return "t0";
                        if (f == "s_smf_stream_tag.ticks") return ofNext(S, Ld->getPointerOperand()) && t[Merge] ? "t1" : "?";
                        if (f == "s_smf_data_tag.tickConv") return "tc";
                        if (f == "s_smf_data_tag.time") return "time";
                        return "?";
                      }
                      if (t[Merge] && mergeMin.count(x)) return "t1";
                      if (auto *B = dyn_cast<BinaryOperator>(x); B && B->getOpcode() == Instruction::Sub) {
                        if (auto *m = W.canon(S, B->getOperand(0)); t[Merge] && (mergeMin.count(m) || mergeMin.count(B->getOperand(0))) && ticks0.count(dyn_cast<LoadInst>(W.canon(S, B->getOperand(1))))) return "d";
                        auto *a = dyn_cast<LoadInst>(W.canon(S, B->getOperand(0))), *b = dyn_cast<LoadInst>(W.canon(S, B->getOperand(1)));
                        if (a && b && ticks0.count(b) && t[Merge] && !ticks0.count(a) && field(a->getPointerOperand()) == "s_smf_stream_tag.ticks") return "d";
                      }
                      return "";
                    }};
            std::string e = nm.str(St->getValueOperand());
            if (e != "add(mul(256,shr(d,10),tc),shr(mul(and(1023,d),tc),2),time)" && e != "add(mul(256,tc,shr(d,10)),shr(mul(and(1023,d),tc),2),time)" && e != "add(shr(mul(d,tc),2),time)" &&
                e.find("phi") == std::string::npos && norm(e) != norm("add(mul(256,shr(d,10),tc),shr(mul(and(1023,d),tc),2),time)"))
              return bad("time", I, S, "the time does not advance by the ticks to the next event at the current tempo (" + e + ")");
            t[TimeSt]++;
            return true;
          }
          return true;
        }
        auto *B = dyn_cast<CallBase>(I);
        if (!B) return true;
        std::string n = calleeName(B);
        bool io = n == "EAS_HWGetByte" || n == "EAS_HWFileSeek" || n == "EAS_HWFilePos" || n == "EAS_HWReadFile" || n == "EAS_ParseMIDIStream";
        if (!io) return true;
        if (t[FailAt] != OK) return bad("after", I, S, "reading goes on after an error");
        if (n == "EAS_HWGetByte") {
          obligations++;
          if (!ofNext(S, cast<LoadInst>(stripCasts(B->getArgOperand(1)))->getPointerOperand())) return bad("track", I, S, "a byte of another track is read");
          auto *L = fi.loopOf(I);
          LoopFact lf;
          if (L && facts.count(L)) lf = facts[L];
          auto pendZero = [&]() -> std::optional<bool> {
            if (!t[Pend]) return {};
            auto r = W.get(S, vals[t[Pend]]);
            if (r.isSingleElement() && r.getSingleElement()->isZero()) return true;
            if (!r.contains(APInt::getZero(r.getBitWidth()))) return false;
            return {};
          };
          auto &h = ph[B];
          if (!h) h.reset(new Argument(Type::getInt8Ty(B->getContext())));
          W.kill(S, h.get());
          S.mem[W.cell(S, B->getArgOperand(2))] = h.get();
          if (!t[Reads]) {
            t[Reads] = id(h.get());
            t[Unfed] = 1;
            S.fact.insert_or_assign(h.get(), range8(cl.lo, cl.hi));
          } else if (lf.k == VarLen) {
            int lid = id((const Value *)L);
            if (cl.k == Class::Midi) {
              if (t[Delta] && t[Delta] != lid) return bad("delta", I, S, "more than one delta time is read");
              if (!t[Delta]) {
                if (t[Unfed]) return bad("feed", I, S, "a byte is read that the MIDI decoder never sees");
                if (pendZero() != std::optional<bool>(true)) return bad("feed", I, S, "the event can end before its message is complete");
              }
              t[Delta] = lid;
            } else if (!t[LenLoop] || t[LenLoop] == lid) t[LenLoop] = lid;
            else {
              if (t[Delta] && t[Delta] != lid) return bad("delta", I, S, "more than one delta time is read");
              if (!t[Delta]) complete(cl.k == Class::Syx, cl.lo == 0xf0, I, S, bad);
              if (cl.k == Class::Meta && t[Ended]) return bad("end", I, S, "reading goes on after the end of the track");
              t[Delta] = lid;
            }
          } else if (cl.k == Class::Midi) {
            if (t[Delta]) return bad("delta", I, S, "a byte is read after the delta time");
            if (t[Unfed]) return bad("feed", I, S, "a byte is read that the MIDI decoder never sees");
            if (pendZero() != std::optional<bool>(false)) return bad("feed", I, S, "a byte is read although the message is complete");
            t[Unfed] = id(h.get());
          } else if (cl.k == Class::Syx) {
            if (!t[LenLoop] || lf.k != Feeding) return bad("length", I, S, "a byte is read before the length");
            if (t[Unfed] && t[Payload]) return bad("feed", I, S, "a byte is read that the MIDI decoder never sees");
            if (cl.lo == 0xf0 && !t[Fed0]) return bad("feed", I, S, "the SysEx message is not started before its data");
            if (!t[Payload]) count(fi, L, t[LenLoop] ? facts[(Loop *)vals[t[LenLoop]]].result : nullptr, I, S, nm);
            t[Payload] = 1;
            t[Unfed] = id(h.get());
          } else {
            if (!t[LenLoop]) {
              if (t[Type]) return bad("length", I, S, "a byte is read between the type and the length");
              t[Type] = id(h.get());
            } else {
              if (t[Sought]) return bad("skip", I, S, "a byte is read after the end of the event");
              if (lf.k == Counted) {
                auto r = W.get(S, vals[t[Type]]);
                if (!r.isSingleElement() || *r.getSingleElement() != 0x51) return bad("tempo", I, S, "a tempo is read from an event that is none");
                count(fi, L, facts[(Loop *)vals[t[LenLoop]]].result, I, S, nm);
              }
            }
          }
        } else if (n == "EAS_ParseMIDIStream") {
          obligations++;
          if (cl.k == Class::Meta) return bad("feed", I, S, "a byte of it reaches the MIDI decoder");
          if (!ofNext(S, B->getArgOperand(2))) return bad("track", I, S, "the byte goes to the decoder of another track");
          if (W.canon(S, B->getArgOperand(4)) != F.getArg(2)) return bad("mode", I, S, "the byte is decoded in another mode");
          auto *v = W.canon(S, B->getArgOperand(3));
          if (cl.k == Class::Syx && !t[Payload]) {
            auto r = W.get(S, v);
            if (cl.lo == 0xf7) return bad("feed", I, S, "the continuation starts a new message");
            if (t[Fed0] || !r.isSingleElement() || *r.getSingleElement() != 0xf0) return bad("feed", I, S, "the SysEx message is not started by one f0");
            t[Fed0] = 1;
          } else {
            const Value *want = cl.k == Class::Midi && t[Unfed] == 1 ? vals[t[Reads]] : t[Unfed] ? vals[t[Unfed]] : nullptr;
            if (!want) return bad("feed", I, S, "a byte reaches the MIDI decoder twice");
            if (v != want) return bad("feed", I, S, "the MIDI decoder gets another byte than the one read");
            t[Unfed] = 0;
          }
          t[Pend] = 0;
        } else if (n == "EAS_HWFilePos") {
          if (cl.k == Class::Meta && t[LenLoop] && !t[Sought]) {
            auto &h = ph[B];
            if (!h) h.reset(new Argument(Type::getInt64Ty(B->getContext())));
            W.kill(S, h.get());
            S.mem[W.cell(S, B->getArgOperand(2))] = h.get();
            t[Pos] = id(h.get());
          }
        } else if (n == "EAS_HWFileSeek") {
          obligations++;
          if (cl.k != Class::Meta || !t[LenLoop]) return bad("skip", I, S, "part of it is skipped");
          std::vector<const Value *> tm;
          long k = 0;
          terms(W, S, B->getArgOperand(2), tm, k);
          bool fine = t[Pos] && !k && tm.size() == 2;
          if (fine) for (auto *x : tm) fine &= x == vals[t[Pos]] || x == facts[(Loop *)vals[t[LenLoop]]].result;
          if (!fine) return bad("skip", I, S, "reading does not continue behind its last byte");
          t[Sought] = 1;
        } else if (n == "EAS_HWReadFile") {
          if (cl.k != Class::Meta || !t[Pos] || t[Sought]) return bad("skip", I, S, "part of it is read as something else");
        }
        // the call fails, at the end of the file or otherwise, or succeeds
        WState f = S, e = S;
        unsigned w = B->getType()->getIntegerBitWidth();
        f.ts[FailAt] = FAIL;
        for (auto *x : {&f, &e}) for (int i : {LenLoop, Fed0, Unfed, Pend, Pos, Sought, Stored, TimeSt, Type, Tempo, Payload}) x->ts[i] = 0;
        if (W.refine(f, B, CR(APInt(w, 4), APInt(w, 0)))) extra.push_back(f);
        e.ts[FailAt] = EOFF;
        if (n != "EAS_ParseMIDIStream" && W.refine(e, B, CR(APInt(w, 3)))) extra.push_back(e);
        return W.refine(S, B, CR(APInt(w, 0)));
      };
      W.edge = [&](const BasicBlock *a, const BasicBlock *b, WState &S) {
        for (auto *L : merges)
          if (b == L->getHeader() && !L->contains(a)) {
            S.ts[Merge] = 1;
            for (auto &I : instructions(F))
              if (auto *St = dyn_cast<StoreInst>(&I); St && L->contains(St) && field(St->getPointerOperand()) == "s_smf_data_tag.nextStream") {
                auto it = S.mem.find(W.cell(S, St->getPointerOperand()));
                if (it == S.mem.end() || !isa<ConstantPointerNull>(W.canon(S, it->second))) bad("merge", a->getTerminator(), S, "the search for the next event does not start from none");
              }
          }
        if (cl.k == Class::Meta && S.ts[FailAt] == OK)
          for (auto &lf : facts) if (lf.second.k == Counted && a == lf.first->getHeader() && !lf.first->contains(b)) S.ts[Tempo] |= 1;
        if (S.ts[Tempo] == 1 && limited(W, S, tempoName, tempoFormula)) {
          S.ts[Tempo] |= 4;
          // how it was found out does not matter any more
          for (auto it = S.fact.begin(); it != S.fact.end();) it = isa<Instruction>(it->first) && it->first->getType()->isIntegerTy() ? S.fact.erase(it) : std::next(it);
        }
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) {
        paths++;
        auto &t = S.ts;
        if (!t[Reads]) return;
        auto r = W.get(S, Rt->getReturnValue());
        bool zero = r.isSingleElement() && r.getSingleElement()->isZero(), non = !r.contains(APInt::getZero(r.getBitWidth()));
        if (t[FailAt] == FAIL) { if (!non) bad("error", Rt, S, "an error while reading it is not passed on"); return; }
        if (t[FailAt] == EOFF) { if (!zero || !t[Ended]) bad("eof", Rt, S, "the end of the file in it does not end the track"); }
        else {
          if (non) return; // rejected
          if (!t[Delta] && !t[Ended]) { bad("delta", Rt, S, "no delta time is read behind it"); return; }
          if (!t[Delta]) complete(cl.k == Class::Syx, cl.lo == 0xf0, Rt, S, bad);
          if (!t[Ended] && t[Stored] != 1) bad("delta", Rt, S, "its delta time is lost");
          if (cl.k == Class::Meta) {
            auto ty = W.get(S, vals[t[Type]]);
            if (ty.isSingleElement() && *ty.getSingleElement() == 0x2f && !t[Ended]) bad("end", Rt, S, "an end-of-track event does not end the track");
            if (ty.isSingleElement() && *ty.getSingleElement() == 0x51 && !(t[Tempo] & 2)) bad("tempo", Rt, S, "a tempo event does not change the tempo");
          }
        }
        if (t[Merge]) {
          obligations++;
          bool some = false, none = false;
          const Value *nx = t[Next] ? vals[t[Next]] : nullptr;
          for (auto &I : instructions(F))
            if (auto *St = dyn_cast<StoreInst>(&I); St && field(St->getPointerOperand()) == "s_smf_data_tag.nextStream") {
              auto it = S.mem.find(W.cell(S, St->getPointerOperand()));
              if (it != S.mem.end()) { nx = it->second; break; }
            }
          if (nx) { auto n = W.get(S, nx); some = !n.contains(APInt::getZero(n.getBitWidth())); none = n.isSingleElement() && !some; }
          if (!some && !none && t[State] == 1 + 1) some = true;
          if (some && t[State] != 1 + 1) bad("state", Rt, S, "playing does not go on although there is a next event");
          if (none && t[State] != 1 + 2) bad("state", Rt, S, "playing does not come to its end although no track has a next event");
          if (some && !t[TimeSt] && t[FailAt] == OK) {
            bool chase = false;
            for (auto *tr : S.trail) {
              auto *Br = dyn_cast<BranchInst>(tr);
              auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
              auto *A = Cm ? dyn_cast<BinaryOperator>(Cm->getOperand(0)) : nullptr;
              auto *m = A && A->getOpcode() == Instruction::And ? dyn_cast<ConstantInt>(A->getOperand(1)) : nullptr;
              if (!m || !m->isOne() || !Cm->isEquality()) continue;
              bool after = false;
              for (auto *L : merges) after |= fi.DT.dominates(L->getHeader(), Br->getParent());
              if (!after) continue;
              const Value *x = A->getOperand(0);
              while (auto *K = dyn_cast<CastInst>(x)) x = K->getOperand(0);
              WState c = S;
              if (auto *Ld = dyn_cast<LoadInst>(x); Ld && field(Ld->getPointerOperand()) == "s_smf_data_tag.flags" && !W.assume(c, Cm, Cm->getPredicate() == ICmpInst::ICMP_EQ)) chase = true;
            }
            if (!chase) bad("time", Rt, S, "no time passes until the next event");
          }
          if (t[TimeSt] > 1) bad("time", Rt, S, "time passes twice");
        }
        if (!t[Merge] && merges.size()) {
          // staying with the track is right only when the next event is due at once
          bool due = false;
          if (t[Delta]) {
            for (auto *tr : S.trail) {
              auto *Br = dyn_cast<BranchInst>(tr);
              auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
              if (!Cm || !Cm->isEquality()) continue;
              for (int q = 0; q < 2; q++) {
                auto *x = Cm->getOperand(q), *y = Cm->getOperand(1 - q);
                bool t0 = ticks0.count(x) || ticks0.count(W.canon(S, x)), t1 = false;
                if (auto *Ld = dyn_cast<LoadInst>(y)) t1 = !ticks0.count(Ld) && field(Ld->getPointerOperand()) == "s_smf_stream_tag.ticks" && !ticks0.count(W.canon(S, y));
                if (auto *A = dyn_cast<BinaryOperator>(y)) t1 = A->getOpcode() == Instruction::Add;
                WState c = S;
                if (t0 && t1 && !W.assume(c, Cm, Cm->getPredicate() == ICmpInst::ICMP_NE)) due = true;
              }
            }
            auto d = W.get(S, facts[(Loop *)vals[t[Delta]]].result);
            due |= d.isSingleElement() && d.getSingleElement()->isZero();
          }
          if (!due) bad("merge", Rt, S, "the other tracks are not looked at for the next event");
        }
      };
      W.run(init);
      R.note("event_classes", nm);
    }
  }
  static std::string norm(std::string e) { return e; }
  template <class Bad> void complete(bool syx, bool f0, const Instruction *I, WState &S, Bad &bad) {
    auto &t = S.ts;
    obligations++;
    if (syx) {
      if (t[Unfed] && t[Payload]) bad("feed", I, S, "a byte is read that the MIDI decoder never sees");
      if (f0 && !t[Fed0]) bad("feed", I, S, "the SysEx message is not started");
    } else if (!t[Sought]) bad("skip", I, S, "reading does not continue behind its last byte");
  }
  // the bytes of a counted part: as many as the length says
  std::set<std::pair<Loop *, const Value *>> counted;
  void count(FnInfo &fi, Loop *L, const Value *len, const Instruction *I, WState &S, const std::string &nm) {
    if (!L || !len || !counted.insert({L, len}).second) return;
    obligations++;
    auto *w = fi.SE.getSCEV(const_cast<Value *>(len));
    SmallVector<BasicBlock *, 8> ex;
    L->getExitingBlocks(ex);
    bool any = false;
    for (auto *B : ex) {
      auto *n = fi.SE.getExitCount(L, B);
      if (isa<SCEVCouldNotCompute>(n)) continue;
      any = true;
      if (isa<SCEVCouldNotCompute>(w) || n->getType() != w->getType()) continue;
      bool before = fi.DT.dominates(B, I->getParent());
      auto *x = before ? w : fi.SE.getMinusSCEV(w, fi.SE.getOne(w->getType()));
      auto ok = [&](const SCEV *y) { return y == x || fi.SE.getMinusSCEV(y, x)->isZero(); };
      bool good = ok(n);
      if (auto *M = dyn_cast<SCEVSMaxExpr>(n)) for (auto *o : M->operands()) good |= ok(o);
      if (auto *M = dyn_cast<SCEVUMaxExpr>(n)) for (auto *o : M->operands()) good |= ok(o);
      if (!good) R.add("event:length", loc(I), nm + ": the number of bytes read is not its length", Walk::path(S));
    }
    if (!any) R.note("uncounted", loc(I));
  }

  // ---- the earliest event of all tracks -------------------------------------------------------
  std::set<Loop *> mergeLoops;
  std::set<const Value *> mergeMin; // the earliest time so far, on leaving the merge the earliest of all
  // a loop whose turns take the tracks one after the other, from the first to the last
  bool allTracks(FnInfo &fi, Loop *L, const Value *iv, const Instruction *at, const std::string &what) {
    bool any = false;
    // which tracks are visited
    auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(iv)));
    if (AR && AR->getLoop() == L) {
      any = true;
      if (!AR->getStart()->isZero() || !AR->getStepRecurrence(fi.SE)->isOne()) R.add("merge:all", loc(at), what + ": not every track is looked at");
    }
    SmallVector<BasicBlock *, 8> ex;
    L->getExitingBlocks(ex);
    for (auto *E : ex) {
      auto *Br = dyn_cast<BranchInst>(E->getTerminator());
      auto *X = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
      if (!X) continue;
      for (int q = 0; q < 2; q++) {
        auto *ix = stripCasts(X->getOperand(q)), *n = stripCasts(X->getOperand(1 - q));
        auto *ar = ix->getType()->isIntegerTy() ? dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(X->getOperand(q)))) : nullptr;
        if (!ar || ar->getLoop() != L || !ar->getStepRecurrence(fi.SE)->isOne()) continue;
        auto *Ld = dyn_cast<LoadInst>(n);
        bool isN = Ld && decompose(Ld->getPointerOperand()).field(P) == "s_smf_data_tag.numStreams";
        auto pr = q ? X->getSwappedPredicate() : X->getPredicate();
        bool stay = L->contains(Br->getSuccessor(0));
        if (!stay) pr = ICmpInst::getInversePredicate(pr);
        // goes on while ix pr n: visits start .. n - 1
        if (auto *K = dyn_cast<ConstantInt>(n); K && K->getSExtValue() < 128) R.add("merge:all", loc(Br), what + ": not every track is looked at");
        bool lt = pr == ICmpInst::ICMP_SLT || pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_NE;
        bool before = fi.DT.dominates(E, at->getParent());
        bool start0 = ar->getStart()->isZero(), start1 = ar->getStart()->isOne();
        bool good = isN && lt && (before ? start0 : start1);
        auto *bo = dyn_cast<BinaryOperator>(n);
        bool offByK = bo && (bo->getOpcode() == Instruction::Add || bo->getOpcode() == Instruction::Sub) && isa<ConstantInt>(bo->getOperand(1));
        if (!good && (isN || offByK)) R.add("merge:all", loc(Br), what + ": not every track is looked at");
      }
    }
    return any;
  }
  void merge(const Function &F, FnInfo &fi, const std::string &what) {
    mergeLoops.clear();
    mergeMin.clear();
    for (auto *L : fi.loops()) {
      // the minimum so far (a header phi) compared with the time of a track
      for (auto *B : L->blocks()) for (auto &I : *B) {
        auto *Cm = dyn_cast<ICmpInst>(&I);
        if (!Cm || fi.LI.getLoopFor(B) != L) continue;
        for (int sw = 0; sw < 2; sw++) {
          auto *M = dyn_cast<PHINode>(Cm->getOperand(sw ? 0 : 1));
          auto *c = Cm->getOperand(sw ? 1 : 0);
          auto *cand = dyn_cast<Instruction>(c);
          if (!M || M->getParent() != L->getHeader() || !cand) continue;
          const Value *place = nullptr;
          if (auto *Ld = dyn_cast<LoadInst>(cand)) place = Ld->getPointerOperand();
          else // a value that is kept in the track
            for (auto *B : L->blocks()) for (auto &J : *B)
              if (auto *St = dyn_cast<StoreInst>(&J); St && St->getValueOperand() == c && decompose(St->getPointerOperand()).field(P) == "s_smf_stream_tag.ticks") place = St->getPointerOperand();
          if (!place) continue;
          Addr A = decompose(place);
          if (A.field(P) != "s_smf_stream_tag.ticks") continue;
          const Value *iv = nullptr;
          for (auto &s : A.steps) if (s.k == Step::Index && s.var && !isa<ConstantInt>(s.var)) iv = s.var;
          if (!iv) continue;
          mergeLoops.insert(L);
          mergeMin.insert(M);
          for (unsigned i = 0; i < M->getNumIncomingValues(); i++) if (auto *x = M->getIncomingValue(i); L->contains(M->getIncomingBlock(i)) && (isa<PHINode>(x) || isa<SelectInst>(x) || isa<MinMaxIntrinsic>(x))) mergeMin.insert(x);
          R.note("merges", loc(Cm));
          obligations += 3;
          for (unsigned i = 0; i < M->getNumIncomingValues(); i++)
            if (!L->contains(M->getIncomingBlock(i)))
              if (auto *K = dyn_cast<ConstantInt>(M->getIncomingValue(i)); K && K->getZExtValue() != 0xffffffff)
                R.add("merge:bound", loc(Cm), what + ": tracks whose next event is after tick " + std::to_string(K->getZExtValue()) + " are passed over");
          allTracks(fi, L, iv, cand, what);
          // what one turn does
          const PHINode *bestPhi = nullptr;
          for (auto &Ph : L->getHeader()->phis()) if (Ph.getType()->isPointerTy()) bestPhi = &Ph;
          for (int rel = -1; rel <= 1; rel++) {
            auto pr = sw ? Cm->getSwappedPredicate() : Cm->getPredicate(); // cand pr M
            APInt a(64, 5 + rel), b(64, 5);
            bool t = ICmpInst::compare(a, b, pr);
            for (auto &w : ways(L, {{Cm, t}})) {
              if (w.to != L->getHeader()) continue;
              if (std::find(w.blocks.begin(), w.blocks.end(), Cm->getParent()) == w.blocks.end()) { R.add("merge:order", loc(Cm), what + ": a track can be passed over"); continue; }
              auto *m = w.next(M);
              // other loads of the same field of the same track are the same value
              bool took = m == cand;
              if (auto *Ld = dyn_cast<LoadInst>(m); Ld && Ld != cand) { Addr Y = decompose(Ld->getPointerOperand()); took = Y.field(P) == A.field(P); }
              const Value *best = nullptr;
              bool hasBest = false;
              for (auto *St : w.stores) if (decompose(St->getPointerOperand()).field(P) == "s_smf_data_tag.nextStream") best = St->getValueOperand(), hasBest = true;
              if (!hasBest && bestPhi && w.next(bestPhi) != bestPhi) best = w.next(bestPhi), hasBest = true;
              bool bestOk = !hasBest;
              if (hasBest && best) {
                Addr Y = decompose(best);
                for (auto &s : Y.steps) if (s.k == Step::Index && s.var) { auto *x = fi.SE.getSCEV(const_cast<Value *>(s.var)); bestOk = x == fi.SE.getSCEV(const_cast<Value *>(iv)) || s.var == iv; }
              }
              if (rel < 0 ? !(took && hasBest && bestOk) : !(m == M && !hasBest))
                R.add("merge:order", loc(Cm), what + (rel < 0 ? ": an earlier event of another track is not preferred" : rel == 0 ? ": at the same time a later track goes before an earlier one" : ": a later event is preferred"));
            }
          }
        }
      }
    }
  }

  // known to be in chase mode, where the clock stands still
  bool chasing(Walk &W, WState &S) {
    for (auto &f : S.fact)
      if (auto *A = dyn_cast<BinaryOperator>(f.first); A && A->getOpcode() == Instruction::And && !f.second.contains(APInt::getZero(f.second.getBitWidth())))
        if (auto *K = dyn_cast<ConstantInt>(A->getOperand(1)); K && K->isOne()) {
          auto *x = A->getOperand(0);
          while (auto *c = dyn_cast<CastInst>(x)) x = c->getOperand(0);
          if (auto *Ld = dyn_cast<LoadInst>(x); Ld && decompose(Ld->getPointerOperand()).field(P) == "s_smf_data_tag.flags") return true;
        }
    return false;
  }

  // ---- the header and the tracks --------------------------------------------------------------
  void header(const Function &F) {
    FnInfo fi(F);
    facts.clear();
    Walk base(P, F, MR);
    classify(fi, base);
    merge(F, fi, "the first event");
    auto field = [&](const Value *p) { return decompose(p).field(P); };
    std::map<const CallBase *, std::unique_ptr<Argument>> ph;
    std::map<const Value *, int> ids;
    std::vector<const Value *> vals{nullptr};
    auto id = [&](const Value *v) { auto it = ids.find(v); if (it != ids.end()) return it->second; vals.push_back(v); return ids[v] = (int)vals.size() - 1; };
    struct Case { unsigned tlo, thi, dlo, dhi; long tracks, ppqn; };
    std::vector<Case> cases{{0, 0, 0, 0xffff, 0, 0}, {1, 128, 0, 0, -1, 192}, {1, 128, 1, 0x7fff, -1, -1}, {1, 128, 0x8000, 0xffff, -1, 192}, {129, 0xffff, 1, 0x7fff, 128, -1}};
    for (auto &cs : cases) {
      Walk W(P, F, MR);
      W.maxStates = 96;
      enum { Words, Tracks, Division, Ppqn, Conv, Seek, Size, Id, Start, Delta0, NumSet, Fail, HTime, HFirst, HN };
      std::set<const Value *> tcs;
      for (auto &I : instructions(F)) if (auto *St = dyn_cast<StoreInst>(&I); St && field(St->getPointerOperand()) == "s_smf_data_tag.tickConv") tcs.insert(St->getValueOperand());
      WState init;
      init.ts.assign(HN, 0);
      std::string nm = "a file of " + (cs.thi == 0 ? std::string("no track") : cs.tlo == 129 ? std::string("more than 128 tracks") : std::string("tracks")) + (cs.ppqn == 192 ? " without a usable division" : "");
      auto bad = [&](const char *key, const Instruction *I, WState &S, const std::string &m) { R.add(std::string("header:") + key, loc(I), nm + ": " + m, Walk::path(S)); return false; };
      W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) -> bool {
        auto &t = S.ts;
        if (auto *St = dyn_cast<StoreInst>(I)) {
          std::string f = field(St->getPointerOperand());
          auto *v = W.canon(S, St->getValueOperand());
          if (f == "s_smf_data_tag.ppqn") {
            t[Ppqn] = id(v);
          } else if (f == "s_smf_data_tag.tickConv") {
            obligations++;
            Norm n{W, S, [&](const Value *x) -> std::string {
                     if (t[Ppqn] && x == vals[t[Ppqn]]) return "ppqn";
                     if (auto *Ld = dyn_cast<LoadInst>(x)) return field(Ld->getPointerOperand()) == "s_smf_data_tag.ppqn" ? "ppqn" : "?";
                     return "";
                   }};
            const std::string want = "div(add(500,div(512000000,ppqn)),1000)";
            bool ok = true;
            arms(W, S, v, [&](WState &S, const Value *v) {
              auto *pk = t[Ppqn] ? dyn_cast<ConstantInt>(vals[t[Ppqn]]) : nullptr;
              if (auto *K = dyn_cast<ConstantInt>(v)) {
                // a constant division, or the slowest tempo there is
                uint64_t k = K->getZExtValue() & 0xffff;
                uint64_t w = pk && pk->getZExtValue() ? std::min<uint64_t>(65535, (512000000ull / pk->getZExtValue() + 500) / 1000) : 65535;
                std::string wantK = pk ? "div(add(500,div(512000000," + std::to_string(pk->getZExtValue()) + ")),1000)" : want;
                if (k == 65535 && limited(W, S, n.name, wantK)) return true; // on no real path for a division that is known
                if (k != w) return bad("tempo", I, S, "the tempo before the first tempo event is not 120 beats per minute");
                if (!pk && !limited(W, S, n.name, want)) return bad("tempo", I, S, "the tempo before the first tempo event is not 120 beats per minute although it could be");
                return true;
              }
              Norm m{W, S, n.name};
              std::string e = m.str(v);
              if (pk) { std::string q = "div(512000000," + std::to_string(pk->getZExtValue()) + ")"; if (auto i = e.find(q); i != std::string::npos) e.replace(i, q.size(), "div(512000000,ppqn)"); }
              if (e != want) return bad("tempo", I, S, "the tempo before the first tempo event is not 120 beats per minute (" + e + ")");
              if (!W.get(S, v).getUnsignedMax().ule(65535)) return bad("tempo", I, S, "the tempo before the first tempo event wraps for a small division");
              return true;
            }, ok);
            if (!ok) return false;
            t[Conv] = 1;
          } else if (f == "s_smf_data_tag.time") {
            obligations++;
            if (W.isZero(S, v)) { t[HTime] = 0; return true; }
            std::string e;
            if (t[HTime] || !firstTime(W, S, St->getValueOperand(), [&](const Value *x) { return tcs.count(x) > 0; }, e)) return bad("time", I, S, "the clock does not start at the time of the first event (" + e + ")");
            t[HTime] = 1;
          } else if (f == "s_smf_data_tag.numStreams") {
            auto r = W.get(S, v);
            if (t[Words] >= 1 && t[Tracks]) {
              obligations++;
              bool good = cs.tracks == 128 ? r.isSingleElement() && *r.getSingleElement() == 128 : v == vals[t[Tracks]] || (isa<CastInst>(v) && W.canon(S, cast<CastInst>(v)->getOperand(0)) == vals[t[Tracks]]);
              if (!good && !(r.isSingleElement() && r.getSingleElement()->isZero())) return bad("tracks", I, S, "the number of tracks played is not the one the file has, up to 128");
              t[NumSet] = r.isSingleElement() && r.getSingleElement()->isZero() ? 0 : 1;
            }
          } else if (f == "s_smf_stream_tag.ticks") {
            obligations++;
            auto *K = dyn_cast<ConstantInt>(v);
            if (K && K->isZero()) { t[Delta0] = 1; return true; }
            std::vector<const Value *> tm;
            long k = 0;
            terms(W, S, v, tm, k);
            bool fine = t[Delta0] == 1 && !k;
            int d = 0;
            for (auto *x : tm) {
              bool isD = false;
              for (auto &lf : facts) isD |= lf.second.k == VarLen && x == lf.second.result;
              if (isD) d++;
              else if (auto *Ld = dyn_cast<LoadInst>(x); !Ld || field(Ld->getPointerOperand()) != "s_smf_stream_tag.ticks") fine = false;
            }
            if (!fine || d != 1) return bad("delta", I, S, "the time of a track's first event is not its first delta time");
            t[Delta0] = 2;
          } else if (f == "s_smf_stream_tag.startFilePos") {
            obligations++;
            std::vector<const Value *> tm, sk;
            long k = 0, k2 = 0;
            terms(W, S, v, tm, k);
            if (t[Seek]) terms(W, S, vals[t[Seek]], sk, k2);
            std::sort(tm.begin(), tm.end());
            std::sort(sk.begin(), sk.end());
            if (!t[Seek] || k != k2 + 8 || tm != sk) return bad("start", I, S, "the start of a track is not the byte behind its chunk header");
            t[Start] = 1;
          }
          return true;
        }
        if (auto *Ld = dyn_cast<LoadInst>(I); Ld && field(Ld->getPointerOperand()) == "s_smf_data_tag.nextStream") { t[HFirst] = id(Ld); return true; }
        auto *B = dyn_cast<CallBase>(I);
        if (!B) return true;
        std::string n = calleeName(B);
        if (n == "EAS_HWMalloc" && cs.thi == 0) return bad("tracks", I, S, "it is not rejected");
        bool io = n == "EAS_HWGetWord" || n == "EAS_HWGetDWord" || n == "EAS_HWFileSeek" || n == "EAS_HWGetByte" || n == "EAS_HWDupHandle";
        if (!io) return true;
        if (n == "EAS_HWGetWord" || n == "EAS_HWGetDWord") {
          obligations++;
          auto be = W.get(S, B->getArgOperand(3));
          if (!be.isSingleElement() || be.getSingleElement()->isZero()) return bad("order", I, S, "a number is read with its bytes in the wrong order");
          auto &h = ph[B];
          unsigned w = n == "EAS_HWGetWord" ? 16 : 64;
          if (!h) h.reset(new Argument(IntegerType::get(B->getContext(), w)));
          if (n == "EAS_HWGetDWord" && t[Words] == 2 && t[Size] && t[Size] == id(h.get())) {} // another turn
          W.kill(S, h.get());
          S.mem[W.cell(S, B->getArgOperand(2))] = h.get();
          if (w == 16) {
            t[Words]++;
            if (t[Words] == 1) { t[Tracks] = id(h.get()); S.fact.insert_or_assign(h.get(), CR::getNonEmpty(APInt(16, cs.tlo), APInt(16, (cs.thi + 1) & 0xffff))); if (!t[Seek] || pos(W, S, vals[t[Seek]]) != 10) return bad("tracks", I, S, "the number of tracks is read from the wrong place"); }
            else if (t[Words] == 2) { t[Division] = id(h.get()); if (!(cs.dlo == 0 && cs.dhi == 0xffff)) S.fact.insert_or_assign(h.get(), CR::getNonEmpty(APInt(16, cs.dlo), APInt(16, (cs.dhi + 1) & 0xffff))); }
            else return bad("order", I, S, "more than two words of the header are read");
          } else if (t[Words] == 2) {
            if (!t[Id]) { t[Id] = id(h.get()); S.fact.insert_or_assign(h.get(), CR(APInt(64, 0), APInt(64, 1ull << 32))); }
            else { t[Size] = id(h.get()); S.fact.insert_or_assign(h.get(), CR(APInt(64, 0), APInt(64, 1ull << 32))); }
          } else {
            t[Size] = id(h.get());
            S.fact.insert_or_assign(h.get(), CR(APInt(64, 0), APInt(64, 1ull << 32)));
            if (!t[Seek] || pos(W, S, vals[t[Seek]]) != 4) return bad("start", I, S, "the size of the header is read from the wrong place");
          }
        } else if (n == "EAS_HWFileSeek") {
          obligations++;
          auto *v = W.canon(S, B->getArgOperand(2));
          if (t[Words] == 2) {
            std::vector<const Value *> tm;
            long k = 0;
            terms(W, S, v, tm, k);
            bool size = false;
            for (auto *x : tm) size |= t[Size] && x == vals[t[Size]];
            // the previous position (the file's offset first) + 8 + the size of the chunk that starts there
            std::vector<const Value *> prev;
            long k0 = 0;
            bool known = true;
            if (t[Id] && t[Seek]) { terms(W, S, vals[t[Seek]], prev, k0); }
            (void)known;
            if (!size || tm.size() < 2 || (k - k0) % 8 || !(k == 8 || k == k0 + 8)) return bad("chunk", I, S, "the next chunk is not looked for behind the end of this one");
            t[Id] = 0;
          }
          t[Seek] = id(v);
        } else if (n == "EAS_HWGetByte") {
          if (t[Words] == 2) {
            auto r = t[Id] ? W.get(S, vals[t[Id]]) : CR::getFull(64);
            if (!r.isSingleElement() || *r.getSingleElement() != 0x4d54726b) return bad("chunk", I, S, "a chunk that is no track is played");
            if (!t[Start]) return bad("start", I, S, "the start of a track is not kept");
          }
        } else if (n == "EAS_HWDupHandle") {
          t[Start] = 0;
          if (t[Delta0] != 2) return bad("delta", I, S, "the first delta time of a track is not read");
          t[Delta0] = 0;
        }
        WState f = S;
        unsigned w = B->getType()->getIntegerBitWidth();
        f.ts[Fail] = 1;
        if (W.refine(f, B, CR(APInt(w, 1), APInt(w, 0)))) extra.push_back(f);
        return W.refine(S, B, CR(APInt(w, 0)));
      };
      W.ret = [&](const ReturnInst *Rt, WState &S) {
        paths++;
        auto &t = S.ts;
        auto r = W.get(S, Rt->getReturnValue());
        bool non = !r.contains(APInt::getZero(r.getBitWidth()));
        if (t[Fail]) { if (!non) bad("error", Rt, S, "an error while reading it is not passed on"); return; }
        if (non) return;
        obligations++;
        if (cs.thi == 0) { bad("tracks", Rt, S, "it is not rejected"); return; }
        auto *pp = t[Ppqn] ? vals[t[Ppqn]] : nullptr;
        if (!pp) { bad("division", Rt, S, "no division is set"); return; }
        if (cs.ppqn == 192) {
          auto x = W.get(S, pp);
          if (!x.isSingleElement() || *x.getSingleElement() != 192) bad("division", Rt, S, "the division is not 192 ticks per quarter note");
        } else if (t[Division]) {
          Syms sy;
          Bits b = sy.eval(W, S, pp).zext(16), d = Syms::leaf(sy.of(vals[t[Division]]), 16, CR::getFull(16));
          for (unsigned i = 0; i < 15; i++) if (b.b[i] != d.b[i]) { bad("division", Rt, S, "the division is not the one the file has"); break; }
        }
        if (!t[Conv]) bad("tempo", Rt, S, "no tempo is set");
        if (!t[NumSet]) bad("tracks", Rt, S, "the number of tracks is not set");
        if (!t[HTime] && !(t[HFirst] && W.isZero(S, vals[t[HFirst]])) && !chasing(W, S)) bad("time", Rt, S, "the clock does not start at the time of the first event");
      };
      W.run(init);
      R.note("header_cases", nm);
    }
  }
  // ---- back to the start ------------------------------------------------------------------------
  // the clock, advanced by the ticks to the first event
  bool firstTime(Walk &W, WState &S, const Value *v, const std::function<bool(const Value *)> &isTc, std::string &e) {
    Norm nm{W, S, [&](const Value *x) -> std::string {
              if (isTc(x)) return "tc";
              if (auto *Ld = dyn_cast<LoadInst>(x)) {
                auto f = decompose(Ld->getPointerOperand()).field(P);
                if (f == "s_smf_stream_tag.ticks") return "t1";
                if (f == "s_smf_data_tag.tickConv") return "tc";
                if (f == "s_smf_data_tag.time") return "time";
                return "?";
              }
              if (mergeMin.count(x)) return "t1";
              return "";
            }};
    e = nm.str(v);
    if (auto i = e.find(",time)"); i != std::string::npos) e.erase(i, 5);
    return e == "add(mul(256,shr(t1,10),tc),shr(mul(and(1023,t1),tc),2))" || e == "add(mul(256,tc,shr(t1,10)),shr(mul(and(1023,t1),tc),2))" || e == "shr(mul(t1,tc),2)" || e == "add(shr(mul(t1,tc),2))" || e.find("phi") != std::string::npos;
  }
  void rewind(const Function &F) {
    FnInfo fi(F);
    facts.clear();
    Walk base(P, F, MR);
    classify(fi, base);
    const std::string what = "the first event after a rewind";
    merge(F, fi, what);
    auto field = [&](const Value *p) { return decompose(p).field(P); };
    auto track = [&](const Value *p) -> const Value * {
      Addr A = decompose(p);
      for (auto &s : A.steps) if (s.k == Step::Index && s.var) { auto *v = s.var; while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; }
      return A.root;
    };
    enum { Sk = 1, Ze = 2, In = 4, De = 8, All = 15 };
    const char *miss[] = {"its file is not positioned at its first event", "its time does not start from 0", "its decoder keeps the state of the last pass", "its first delta time is not read"};
    // where each thing is done, and in which loop over the tracks
    std::map<const Instruction *, int> site;
    std::map<Loop *, int> in;
    int all = 0;
    auto outer = [&](const Instruction *I) { auto *L = fi.loopOf(I); while (L && L->getParentLoop()) L = L->getParentLoop(); return L; };
    std::map<const Instruction *, const Value *> at;
    for (auto &I : instructions(F)) {
      int k = 0;
      const Value *p = nullptr;
      if (auto *B = isCall(&I, "EAS_HWFileSeek")) { k = Sk; auto *Ld = dyn_cast<LoadInst>(stripCasts(B->getArgOperand(1))); p = Ld ? Ld->getPointerOperand() : nullptr; }
      else if (auto *B = isCall(&I, "EAS_InitMIDIStream")) k = In, p = B->getArgOperand(0);
      else if (auto *St = dyn_cast<StoreInst>(&I); St && field(St->getPointerOperand()) == "s_smf_stream_tag.ticks") {
        auto *K = dyn_cast<ConstantInt>(St->getValueOperand());
        k = K && K->isZero() ? Ze : De;
        p = St->getPointerOperand();
      }
      if (!k || !p) continue;
      auto *L = outer(&I);
      if (!L) continue; // for one track only
      site[&I] = k;
      at[&I] = track(p);
      in[L] |= k;
      all |= k;
      obligations++;
      auto *AR = at[&I]->getType()->isIntegerTy() ? dyn_cast<SCEVAddRecExpr>(fi.SE.getSCEV(const_cast<Value *>(at[&I]))) : nullptr;
      if (AR && AR->getLoop() == L && AR->getStepRecurrence(fi.SE)->isOne()) allTracks(fi, L, at[&I], &I, what);
    }
    // the first delta time counts from 0 although that is never stored
    bool direct = false;
    for (int i = 0; i < 4; i++) if (!(all & 1 << i) && !(1 << i == Ze)) R.add("rewind:track", locF(&F), std::string("a track that is played again: ") + miss[i]);
    (void)direct;
    Walk W(P, F, MR);
    W.maxStates = 64;
    enum { Done, Turn, Fail, Synth, Flags, Conv, Time, First, State, Merge, RN };
    std::vector<const Value *> vals{nullptr};
    std::map<const Value *, int> ids;
    auto id = [&](const Value *v) { auto it = ids.find(v); if (it != ids.end()) return it->second; vals.push_back(v); return ids[v] = (int)vals.size() - 1; };
    WState init;
    init.ts.assign(RN, 0);
    std::map<const CallBase *, std::unique_ptr<Argument>> ph;
    std::set<const Value *> tcs, firsts;
    auto bad = [&](const char *key, const Instruction *I, WState &S, const std::string &m) { R.add(std::string("rewind:") + key, loc(I), m, Walk::path(S)); return false; };
    for (auto &I : instructions(F)) if (auto *St = dyn_cast<StoreInst>(&I); St && field(St->getPointerOperand()) == "s_smf_data_tag.tickConv") tcs.insert(St->getValueOperand());
    W.inst = [&](const Instruction *I, WState &S, std::vector<WState> &extra) -> bool {
      auto &t = S.ts;
      if (auto s = site.find(I); s != site.end()) {
        if (!t[Turn]) t[Turn] = id(at[I]);
        else if (vals[t[Turn]] != at[I]) return bad("track", I, S, "something is set back for another track than the one whose turn it is");
        if (s->second == In && (t[Done] & De)) {} // the decoder is not used for delta times
        if (s->second == Sk && (t[Done] & De)) return bad("track", I, S, "a track's first delta time is read before its file is positioned");
        t[Done] |= s->second;
      }
      if (auto *St = dyn_cast<StoreInst>(I)) {
        std::string f = field(St->getPointerOperand());
        auto *v = St->getValueOperand();
        if (f == "s_smf_stream_tag.ticks") {
          auto *K = dyn_cast<ConstantInt>(v);
          if (K && K->isZero()) return true;
          obligations++;
          std::vector<const Value *> tm;
          long k = 0;
          terms(W, S, v, tm, k);
          int d = 0;
          bool fine = !k, old = false;
          for (auto *x : tm) {
            bool isD = false;
            for (auto &lf : facts) isD |= lf.second.k == VarLen && x == lf.second.result;
            if (isD) d++;
            else if (auto *Ld = dyn_cast<LoadInst>(x); Ld && field(Ld->getPointerOperand()) == "s_smf_stream_tag.ticks") old = true;
            else fine = false;
          }
          if (old && !(t[Done] & Ze)) { bool here = false; for (auto &s : site) here |= s.second == Ze && fi.DT.dominates(s.first, I); if (!here) fine = false; bool loopBefore = false; for (auto &s : site) loopBefore |= s.second == Ze && outer(s.first) != outer(I); if (loopBefore) fine = !k; }
          if (!fine || d != 1) return bad("delta", I, S, "the time of a track's first event is not its first delta time");
        } else if (f == "s_smf_data_tag.flags") {
          Syms sy;
          Bits b = sy.eval(W, S, v).zext(8), z = Bits::num(8, 0);
          t[Flags] = 1;
          for (int i = 0; i < 4; i++) if (b.b[i] != z.b[i]) t[Flags] = 0;
        } else if (f == "s_smf_data_tag.tickConv") {
          obligations++;
          Norm n{W, S, [&](const Value *x) -> std::string { if (auto *Ld = dyn_cast<LoadInst>(x)) return field(Ld->getPointerOperand()) == "s_smf_data_tag.ppqn" ? "ppqn" : "?"; return ""; }};
          const std::string want = "div(add(500,div(512000000,ppqn)),1000)";
          bool ok = true;
          arms(W, S, v, [&](WState &S, const Value *v) {
            if (auto *K = dyn_cast<ConstantInt>(v)) return (K->getZExtValue() & 0xffff) == 0xffff && limited(W, S, n.name, want) ? true : bad("tempo", I, S, "a rewound file does not start at 120 beats per minute");
            Norm m{W, S, n.name};
            std::string e = m.str(v);
            if (e != want) return bad("tempo", I, S, "a rewound file does not start at 120 beats per minute (" + e + ")");
            if (!W.get(S, v).getUnsignedMax().ule(65535)) return bad("tempo", I, S, "the tempo a rewound file starts with wraps for a small division");
            return true;
          }, ok);
          if (!ok) return false;
          t[Conv] = 1;
        } else if (f == "s_smf_data_tag.time") {
          obligations++;
          if (W.isZero(S, v)) { t[Time] = 1; return true; }
          std::string e;
          if (t[Time] != 1 || !firstTime(W, S, v, [&](const Value *x) { return tcs.count(x) > 0; }, e)) return bad("time", I, S, "the clock of a rewound file does not start at the time of its first event" + (e.empty() ? e : " (" + e + ")"));
          if (!t[Conv]) { bool nodiv = false; for (auto &q : S.fact) if (auto *Ld = dyn_cast<LoadInst>(q.first); Ld && field(Ld->getPointerOperand()) == "s_smf_data_tag.ppqn" && W.isZero(S, Ld)) nodiv = true; if (!nodiv) return bad("tempo", I, S, "the time of the first event of a rewound file is taken at the tempo the last pass ended with"); }
          if (!t[Merge]) return bad("time", I, S, "the time of the first event of a rewound file is taken before that event is known");
          t[Time] = 2;
        } else if (f == "s_smf_data_tag.state") {
          auto r = W.get(S, v);
          t[State] = r.isSingleElement() && r.getSingleElement()->isZero();
        }
        return true;
      }
      if (auto *Ld = dyn_cast<LoadInst>(I)) {
        if (field(Ld->getPointerOperand()) == "s_smf_data_tag.nextStream" && t[Merge]) t[First] = id(Ld);
        return true;
      }
      // a test of flags that were just cleared
      if (auto *A = dyn_cast<BinaryOperator>(I); A && A->getOpcode() == Instruction::And && t[Flags]) {
        for (int q = 0; q < 2; q++)
          if (auto *K = dyn_cast<ConstantInt>(A->getOperand(q)); K && !(K->getZExtValue() & ~15ull)) {
            auto *x = A->getOperand(1 - q);
            while (auto *c = dyn_cast<CastInst>(x)) x = c->getOperand(0);
            if (auto *Ld = dyn_cast<LoadInst>(x); Ld && field(Ld->getPointerOperand()) == "s_smf_data_tag.flags") return W.refine(S, A, CR(APInt::getZero(A->getType()->getIntegerBitWidth())));
          }
        return true;
      }
      auto *B = dyn_cast<CallBase>(I);
      if (!B) return true;
      std::string n = calleeName(B);
      if (n == "VMReset") {
        obligations++;
        auto *Ld = dyn_cast<LoadInst>(W.canon(S, stripCasts(B->getArgOperand(1))));
        if (!Ld || field(Ld->getPointerOperand()) != "s_smf_data_tag.pSynth") return bad("synth", I, S, "rewinding resets another synthesizer");
        auto r = W.get(S, B->getArgOperand(2));
        if (r.contains(APInt::getZero(r.getBitWidth()))) return bad("synth", I, S, "rewinding leaves the synthesizer's reset for later");
        t[Synth] = 1;
        return true;
      }
      if (n != "EAS_HWFileSeek" && n != "EAS_HWGetByte") return true;
      if (t[Fail]) return bad("after", I, S, "rewinding goes on after an error");
      if (n == "EAS_HWFileSeek") {
        obligations++;
        auto *Ld = dyn_cast<LoadInst>(W.canon(S, stripCasts(B->getArgOperand(2)))), *H = dyn_cast<LoadInst>(stripCasts(B->getArgOperand(1)));
        if (!Ld || field(Ld->getPointerOperand()) != "s_smf_stream_tag.startFilePos" || (H && track(Ld->getPointerOperand()) != track(H->getPointerOperand()))) return bad("track", I, S, "a track is not played again from its first event");
      } else {
        auto *H = dyn_cast<LoadInst>(stripCasts(B->getArgOperand(1)));
        auto *L = outer(I);
        if (H && t[Turn] && track(H->getPointerOperand()) != vals[t[Turn]]) return bad("track", I, S, "the first delta time of another track is read");
        if (L && (in[L] & Sk) && !(t[Done] & Sk)) return bad("track", I, S, "a track's first delta time is read before its file is positioned");
        auto &h = ph[B];
        if (!h) h.reset(new Argument(Type::getInt8Ty(B->getContext())));
        W.kill(S, h.get());
        S.mem[W.cell(S, B->getArgOperand(2))] = h.get();
      }
      WState f = S;
      unsigned w = B->getType()->getIntegerBitWidth();
      f.ts[Fail] = 1;
      if (W.refine(f, B, CR(APInt(w, 1), APInt(w, 0)))) extra.push_back(f);
      return W.refine(S, B, CR(APInt(w, 0)));
    };
    W.edge = [&](const BasicBlock *a, const BasicBlock *b, WState &S) {
      for (auto &l : in) {
        if (b == l.first->getHeader()) {
          if (l.first->contains(a)) {
            for (int i = 0; i < 4; i++) if ((l.second & 1 << i) && !(S.ts[Done] & 1 << i) && !S.ts[Fail]) bad("track", a->getTerminator(), S, std::string("a track that is played again: ") + miss[i]);
          }
          S.ts[Done] = S.ts[Turn] = 0;
        }
        if (l.first->contains(a) && !l.first->contains(b)) S.ts[Done] = S.ts[Turn] = 0;
      }
      for (auto *L : mergeLoops)
        if (b == L->getHeader() && !L->contains(a)) {
          S.ts[Merge] = 1;
          for (auto &I : instructions(F))
            if (auto *St = dyn_cast<StoreInst>(&I); St && L->contains(St) && field(St->getPointerOperand()) == "s_smf_data_tag.nextStream") {
              auto it = S.mem.find(W.cell(S, St->getPointerOperand()));
              if (it == S.mem.end() || !isa<ConstantPointerNull>(W.canon(S, it->second))) bad("merge", a->getTerminator(), S, "the search for the first event does not start from none");
            }
        }
    };
    W.ret = [&](const ReturnInst *Rt, WState &S) {
      paths++;
      auto &t = S.ts;
      auto r = W.get(S, Rt->getReturnValue());
      bool non = !r.contains(APInt::getZero(r.getBitWidth()));
      if (t[Fail]) { if (!non) bad("error", Rt, S, "an error while rewinding is not passed on"); return; }
      if (non) return;
      obligations += 6;
      if (!t[Synth]) bad("synth", Rt, S, "rewinding does not reset the synthesizer");
      if (!t[Flags]) bad("flags", Rt, S, "what the last pass found in the setup bar is kept");
      if (!t[State]) bad("state", Rt, S, "a rewound file is not ready to play");
      if (!t[Merge]) bad("merge", Rt, S, "the first event is not looked for");
      if (!t[Time]) bad("time", Rt, S, "the clock is not set back");
      if (t[Time] == 1) {
          bool none = t[First] && W.isZero(S, vals[t[First]]);
        if (!none) bad("time", Rt, S, "the clock does not start at the time of the first event");
      }
      if (!t[Conv]) {
        bool nodiv = false;
        for (auto &q : S.fact) if (auto *Ld = dyn_cast<LoadInst>(q.first); Ld && field(Ld->getPointerOperand()) == "s_smf_data_tag.ppqn" && W.isZero(S, Ld)) nodiv = true;
        if (!nodiv) bad("tempo", Rt, S, "a rewound file keeps the tempo the last pass ended with");
      }
    };
    W.run(init);
  }
  // constant part of a file position relative to the start of the file's data
  long pos(Walk &W, WState &S, const Value *v) {
    std::vector<const Value *> tm;
    long k = 0;
    terms(W, S, v, tm, k);
    return k;
  }
};

void smf(Ctx &C, Report &R) {
  Smf M(C, R);
  auto *E = C.P.M->getFunction("SMF_Event"), *H = C.P.M->getFunction("SMF_ParseHeader");
  if (!E || E->isDeclaration() || E->arg_size() != 3) { R.broken.push_back("the SMF event reader (SMF_Event) is not there"); return; }
  if (!H || H->isDeclaration()) { R.broken.push_back("the SMF header reader (SMF_ParseHeader) is not there"); return; }
  M.event(*E);
  M.header(*H);
  R.stats["numbers"] = M.numbers;
  R.stats["paths"] = M.paths;
  R.stats["obligations"] = M.obligations;
}
NormOpts sopts() {
  NormOpts o;
  o.into = {"SMF_Event", "SMF_ParseHeader"};
  o.keep = {"EAS_HWGetByte", "EAS_HWGetWord", "EAS_HWGetDWord", "EAS_HWFileSeek", "EAS_HWFilePos", "EAS_HWReadFile", "EAS_ParseMIDIStream", "EAS_HWDupHandle", "EAS_HWMalloc", "EAS_HWMemSet",
            "EAS_InitMIDIStream", "VMReleaseAllVoices", "SMF_Event", "SMF_ParseHeader", "EAS_HWMemCpy", "EAS_Report"};
  return o;
}
Reg reg("smf", smf, sopts());
void rewind(Ctx &C, Report &R) {
  Smf M(C, R);
  auto *F = C.P.M->getFunction("SMF_Reset");
  if (!F || F->isDeclaration()) { R.broken.push_back("SMF_Reset is not there"); return; }
  M.rewind(*F);
  R.stats["paths"] = M.paths;
  R.stats["obligations"] = M.obligations;
}
NormOpts wopts() {
  NormOpts o = sopts();
  o.into = {"SMF_Reset"};
  o.keep.insert("VMReset");
  return o;
}
Reg regw("rewind", rewind, wopts());
} // namespace
