// Obligations decided with the whole-program interval analysis.
#include "cg.h"
#include "ranges.h"
#include "walk.h"
#include "report.h"
using namespace sv;

static ConstantRange cr8(unsigned a, unsigned b) { return ConstantRange::getNonEmpty(APInt(8, a), APInt(8, b & 255)); }

static Ranges::DisjSpec midiSpec() {
  Ranges::DisjSpec d;
  d.st = "s_midi_stream_tag";
  d.ctl.push_back({"byte3", {cr8(0, 1), cr8(1, 256)}});
  d.ctl.push_back({"runningStatus", {cr8(0xf1, 0xf0), cr8(0xf0, 0xf1)}}); // anything but 0xf0 | 0xf0
  d.ctl.push_back({"status", {cr8(0, 0xc0), cr8(0xc0, 0xe0), cr8(0xe0, 0xf0), cr8(0xf0, 256)}});
  std::vector<ConstantRange> st;
  for (unsigned i = 0; i < 40; i++) st.push_back(cr8(i, i + 1));
  st.push_back(cr8(40, 256));
  d.ctl.push_back({"sysExState", st});
  d.data = {"d1", "d2"};
  d.scanMode = 3; // eParserModeMetaData
  d.forget = {{0, 0, 2}, {1, 0, 3}};
  return d;
}

static std::string str(const ConstantRange &r) {
  std::string s;
  raw_string_ostream o(s);
  r.print(o);
  return s;
}

static std::unique_ptr<Ranges> solve(Ctx &C, Report &Rp) {
  auto R = std::make_unique<Ranges>(C.P, C.roots);
  R->disjunct(midiSpec());
  // the header parse, which every playback starts with, sets these two before anything reads them
  R->assumeInit("S_TC_DATA", "tempo");
  R->assumeInit("S_TC_DATA", "resolution");
  R->assumeInit("s_voice_mgr_tag", "maxPolyphony"); // set with the rest of the voice manager's start-up state
  R->solve();
  if (!R->converged) Rp.broken.push_back("interval analysis did not reach a fixpoint");
  Rp.stats["fixpoint_passes"] = R->passes;
  Rp.stats["functions_reached"] = R->live.size();
  Rp.stats["machine_tuples"] = R->tupleCount();
  if (getenv("SV_TUP")) R->dumpTuples(errs());
  if (getenv("SV_DEAD"))
    for (Function &F : *C.P.M) {
      if (F.isDeclaration()) continue;
      if (!R->live.count(&F)) { errs() << "dead fn " << F.getName() << "\n"; continue; }
      std::set<const BasicBlock*> seen;
      R->visit(F, [&](const Instruction *I, const BState &) { seen.insert(I->getParent()); });
      for (auto &B : F) {
        if (!seen.count(&B)) {
          for (auto &I : B) if (!isDbg(&I) && srcLine(&I)) errs() << "dead line " << srcFile(&I) << ":" << srcLine(&I) << "\n";
        } else for (auto &I : B) if (!isDbg(&I) && srcLine(&I)) errs() << "live line " << srcFile(&I) << ":" << srcLine(&I) << "\n";
      }
      R->visit(F, [&](const Instruction *I, const BState &S) {
        auto *Br = dyn_cast<BranchInst>(I);
        auto *SW = dyn_cast<SwitchInst>(I);
        if (!I->isTerminator() || I->getNumSuccessors() < 2) return;
        for (unsigned q = 0; q < I->getNumSuccessors(); q++) {
          if (seen.count(I->getSuccessor(q))) continue;
          errs() << "dead edge " << loc(I) << " succ " << q << " of";
          if (Br) {
            errs() << *Br->getCondition();
            if (auto *IC = dyn_cast<ICmpInst>(Br->getCondition())) if (IC->getOperand(0)->getType()->isIntegerTy()) {
              errs() << " ranges "; R->at(IC->getOperand(0), S).print(errs()); errs() << " "; R->at(IC->getOperand(1), S).print(errs());
            }
          }
          if (SW) { errs() << " switch "; R->at(SW->getCondition(), S).print(errs()); if (q) errs() << " case"; }
          errs() << "\n";
        }
      });
    }
  if (getenv("SV_FN")) {
    Function *F = C.P.M->getFunction(getenv("SV_FN"));
    errs() << *F;
    R->visit(*F, [&](const Instruction *I, const BState &S) { errs() << loc(I) << " " << *I; if (I->getType()->isIntegerTy()) { errs() << "   ops"; for (auto &o : I->operands()) if (o->getType()->isIntegerTy()) { errs() << " "; R->at(o, S).print(errs()); } } errs() << "\n"; });
  }
  return R;
}

// every reachable instruction once per analysis context, with engine self-checks
static void visitAll(Ranges &R, Report &Rp, std::function<void(const Instruction *, const BState &)> cb) {
  long insts = 0, bottoms = 0;
  std::set<const Instruction *> seen;
  for (auto *F : R.live)
    R.visit(*F, [&](const Instruction *I, const BState &S) {
      if (seen.insert(I).second) insts++;
      cb(I, S);
    });
  Rp.stats["instructions_reached"] = insts;
  (void)bottoms;
}

static void anIndex(Ctx &C, Report &Rp) {
  auto R = solve(C, Rp);
  std::map<std::pair<const Instruction *, std::string>, bool> obl;
  visitAll(*R, Rp, [&](const Instruction *I, const BState &S) {
    std::vector<const Value *> ptrs;
    bool esc = false;
    if (auto *L = dyn_cast<LoadInst>(I)) ptrs.push_back(L->getPointerOperand());
    else if (auto *St = dyn_cast<StoreInst>(I)) {
      ptrs.push_back(St->getPointerOperand());
      if (St->getValueOperand()->getType()->isPointerTy()) ptrs.push_back(St->getValueOperand());
    } else if (auto *Cl = dyn_cast<CallBase>(I)) {
      if (isField0(Cl)) return;
      for (auto &a : Cl->args())
        if (a->getType()->isPointerTy()) ptrs.push_back(a);
      esc = true;
    } else
      return;
    for (auto *p : ptrs) {
      Addr A = decompose(p);
      for (auto &s : A.steps)
        if (s.k == Step::Index && s.arrLen) {
          if (auto *K = dyn_cast<ConstantInt>(s.var))
            if (K->getZExtValue() < s.arrLen) continue;
          ConstantRange r = R->at(s.var, S);
          std::string what = A.str(C.P);
          auto &ok = obl.emplace(std::make_pair(I, what), true).first->second;
          if (r.isEmptySet()) continue;
          auto okr = ConstantRange::getNonEmpty(APInt::getZero(r.getBitWidth()), APInt(r.getBitWidth(), s.arrLen));
          if (okr.contains(r)) continue;
          ok = false;
          Rp.add(srcFunc(I) + ":" + what, loc(I),
                 "index of " + what + " may be " + str(r) + " but the table has " + std::to_string(s.arrLen) + " entries" + (esc ? " (address passed on)" : ""));
        }
    }
  });
  long bad = 0;
  for (auto &o : obl) {
    if (!o.second) bad++;
    Rp.note("obligations", loc(o.first.first) + ": " + o.first.second);
  }
  Rp.stats["obligations"] = obl.size();
  Rp.stats["discharged"] = obl.size() - bad;
}

static void anArith(Ctx &C, Report &Rp) {
  auto R = solve(C, Rp);
  std::map<const Instruction *, bool> div, sh;
  visitAll(*R, Rp, [&](const Instruction *I, const BState &S) {
    auto *B = dyn_cast<BinaryOperator>(I);
    if (!B) return;
    unsigned w = B->getType()->isIntegerTy() ? B->getType()->getIntegerBitWidth() : 0;
    if (!w) return;
    const Value *y = B->getOperand(1);
    switch (B->getOpcode()) {
    case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: {
      auto &ok = div.emplace(I, true).first->second;
      auto r = R->at(y, S);
      if (R->nonZero(y, S)) return;
      ok = false;
      Rp.add(srcFunc(I) + ":div", loc(I), "divisor may be zero (range " + str(r) + ")");
      return;
    }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (isa<ConstantInt>(y)) return;
      auto &ok = sh.emplace(I, true).first->second;
      auto r = R->at(y, S);
      auto okr = ConstantRange::getNonEmpty(APInt::getZero(w), APInt(w, w));
      if (r.isEmptySet() || okr.contains(r)) return;
      ok = false;
      Rp.add(srcFunc(I) + ":shift", loc(I), "shift amount may be " + str(r) + " for a " + std::to_string(w) + "-bit value");
      return;
    }
    default: return;
    }
  });
  long bad = 0;
  for (auto *m : {&div, &sh})
    for (auto &o : *m) {
      if (!o.second) bad++;
      Rp.note(m == &div ? "divisions" : "shifts", loc(o.first));
    }
  Rp.stats["divisions"] = div.size();
  Rp.stats["variable_shifts"] = sh.size();
  Rp.stats["obligations"] = div.size() + sh.size();
  Rp.stats["discharged"] = div.size() + sh.size() - bad;
}

// calls that never return to the caller
static bool terminates(const CallBase *C, std::string &nm) {
  static const std::set<std::string> names = {"exit", "_exit", "_Exit", "abort", "quick_exit", "__assert_fail", "__assert", "raise", "kill", "longjmp",
                                              "_longjmp", "siglongjmp", "pthread_exit", "thrd_exit", "llvm.trap", "llvm.debugtrap", "llvm.ubsantrap", "execv", "execl", "execvp", "__stack_chk_fail"};
  nm = calleeName(C);
  if (nm.empty()) return false;
  auto *F = C->getCalledFunction();
  return names.count(nm) || C->hasFnAttr(Attribute::NoReturn) || (F && F->isDeclaration() && F->hasFnAttribute(Attribute::NoReturn));
}

static void anExit(Ctx &C, Report &Rp) {
  auto R = solve(C, Rp);
  long all = 0, calls = 0;
  for (Function &F : *C.P.M)
    for (Instruction &I : instructions(F)) {
      std::string nm;
      auto *Cl = dyn_cast<CallBase>(&I);
      if (Cl && !isDbg(Cl) && !isField0(Cl) && terminates(Cl, nm)) {
        all++;
        Rp.note("termination_points", loc(&I) + ": " + nm);
      }
    }
  visitAll(*R, Rp, [&](const Instruction *I, const BState &S) {
    std::string nm;
    if (auto *Cl = dyn_cast<CallBase>(I); Cl && !isDbg(Cl) && !isField0(Cl)) {
      calls++;
      if (terminates(Cl, nm)) Rp.add(srcFunc(I) + ":" + nm, loc(I), nm + " ends the host process and is reachable from the public API");
    }
  });
  Rp.stats["termination_points"] = all;
  Rp.stats["calls_reached"] = calls;
}

// 16-bit audio samples written by the output stage fit before they are narrowed
static void anSaturate(Ctx &C, Report &Rp) {
  auto R = solve(C, Rp);
  CG g(C.P);
  Function *post = C.P.M->getFunction("EAS_MixEnginePost"), *render = C.P.M->getFunction("EAS_Render");
  if (!post || !render) { Rp.broken.push_back("output stage not found"); return; }
  auto fr = g.reach({post});
  long bad = 0;
  std::map<const Instruction *, bool> obl;
  std::set<const Instruction *> loads;
  for (auto &kv : fr) {
    auto *F = kv.first;
    if (!R->live.count(F)) continue;
    Rp.note("output_stage", F->getName().str());
    R->visit(*F, [&](const Instruction *I, const BState &S) {
      auto *St = dyn_cast<StoreInst>(I);
      if (!St || !St->getValueOperand()->getType()->isIntegerTy(16)) return;
      Addr A = decompose(St->getPointerOperand());
      if (isa<AllocaInst>(A.root)) return;
      std::string what;
      for (auto it = A.steps.rbegin(); it != A.steps.rend() && what.empty(); ++it)
        if (it->k == Step::Field) {
          what = it->st + "." + fieldName(C.P, it->st, it->idx);
          auto t = C.P.memberType.find(it->st);
          if (t == C.P.memberType.end() || t->second[fieldName(C.P, it->st, it->idx)] != "EAS_PCM") return;
        }
      if (what.empty()) what = "output buffer";
      // back from the store through joins and clamps to the values that are narrowed
      std::set<const Value *> seen;
      auto fits = [](const ConstantRange &r, unsigned bits) {
        unsigned w = r.getBitWidth();
        return r.isEmptySet() || (r.getSignedMin().sge(APInt::getSignedMinValue(bits).sext(w)) && r.getSignedMax().sle(APInt::getSignedMaxValue(bits).sext(w)));
      };
      auto fail = [&](const std::string &m) {
        obl[I] = false;
        Rp.add(srcFunc(I) + ":" + what, loc(I), "sample stored to " + what + " " + m);
      };
      // +1: cond == truth means the compared value is large, -1: small, 0: unknown
      auto dir = [](const Value *cond, bool truth) {
        auto *IC = dyn_cast<ICmpInst>(cond);
        if (!IC || !IC->isRelational()) return 0;
        auto p = IC->getPredicate();
        if (isa<ConstantInt>(IC->getOperand(0))) p = ICmpInst::getSwappedPredicate(p);
        else if (!isa<ConstantInt>(IC->getOperand(1))) return 0;
        if (!truth) p = ICmpInst::getInversePredicate(p);
        return ICmpInst::isGT(p) || ICmpInst::isGE(p) ? 1 : -1;
      };
      auto clampConst = [&](const ConstantInt *K, int d) {
        int64_t k = K->getSExtValue();
        if (d > 0 && k < 0) fail("becomes " + std::to_string(k) + " where it is too large");
        if (d < 0 && k > 0) fail("becomes " + std::to_string(k) + " where it is too small");
      };
      std::function<void(const Value *, bool)> inner = [&](const Value *V, bool top) { // values feeding the sample
        if (!seen.insert(V).second) return;
        auto *J = dyn_cast<Instruction>(V);
        if (!J) return;
        if (top) obl.emplace(I, true);
        if (auto *T = dyn_cast<TruncInst>(J)) {
          unsigned b = T->getType()->getIntegerBitWidth();
          if (b > 16 || !top) {
            // the accumulators of the mix are taken to hold 32-bit sums
            BState S2 = S;
            bool acc = false;
            std::set<const Value *> sl;
            std::function<void(const Value *)> leaves = [&](const Value *X) {
              if (!sl.insert(X).second) return;
              if (auto *L = dyn_cast<LoadInst>(X)) {
                if (L->getType()->isIntegerTy(64) && ModRef::fieldKey(L->getPointerOperand()).empty()) acc = true, S2.ref.insert({L, ConstantRange(APInt(64, INT32_MIN, true), APInt(64, 1ll + INT32_MAX))});
              } else if (auto *U = dyn_cast<Instruction>(X); U && (isa<BinaryOperator>(U) || isa<CastInst>(U)))
                for (auto &o : U->operands()) leaves(o.get());
            };
            leaves(T->getOperand(0));
            auto r = R->at(T->getOperand(0), S2);
            if ((b > 16 || acc) && !fits(r, b)) fail("passes through a " + std::to_string(b) + "-bit value and may be " + str(r));
          }
          if (b < 16) return;
          if (b == 16 && !top) return;
          if (b == 16) {
            obl.emplace(I, true);
            auto r = R->at(T->getOperand(0), S);
            if (!fits(r, 16)) fail("may be " + str(r) + " before it is narrowed to 16 bits");
          }
          inner(T->getOperand(0), top);
          return;
        }
        if (auto *Ph = dyn_cast<PHINode>(J)) {
          for (unsigned k = 0; k < Ph->getNumIncomingValues(); k++) {
            if (auto *K = dyn_cast<ConstantInt>(Ph->getIncomingValue(k)); K && top) {
              const BasicBlock *B = Ph->getIncomingBlock(k), *to = Ph->getParent();
              for (int n = 0; n < 8; n++) {
                if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()); Br && Br->isConditional()) {
                  if (Br->getSuccessor(0) != Br->getSuccessor(1)) clampConst(K, dir(Br->getCondition(), Br->getSuccessor(0) == to));
                  break;
                }
                to = B;
                B = B->getSinglePredecessor();
                if (!B) break;
              }
            } else
              inner(Ph->getIncomingValue(k), top);
          }
          return;
        }
        if (auto *Se = dyn_cast<SelectInst>(J)) {
          for (int k = 0; k < 2; k++) {
            auto *o = Se->getOperand(1 + k);
            if (auto *K = dyn_cast<ConstantInt>(o); K && top) clampConst(K, dir(Se->getCondition(), k == 0));
            else inner(o, top);
          }
          return;
        }
        if (top && (J->getOpcode() == Instruction::And || J->getOpcode() == Instruction::SRem || J->getOpcode() == Instruction::URem)) {
          fail("is reduced by a mask or remainder instead of being clamped");
          return;
        }
        // sums of 16-bit values computed in 16 bits would wrap
        if (auto *B = dyn_cast<BinaryOperator>(J); B && top && B->getType()->isIntegerTy(16)) {
          obl.emplace(I, true);
          auto r = R->at(B->getOperand(0), S).signExtend(32).binaryOp(B->getOpcode(), R->at(B->getOperand(1), S).signExtend(32));
          if (!fits(r, 16)) fail("is computed in 16 bits and may be " + str(r));
        }
        if (isa<BinaryOperator>(J) || isa<CastInst>(J))
          for (auto &o : J->operands())
            if (isa<Instruction>(o.get())) inner(o.get(), top && isa<CastInst>(J));
      };
      inner(St->getValueOperand(), true);
    });
  }
  for (auto &o : obl) {
    bad += !o.second;
    Rp.note("sample_stores", loc(o.first));
  }
  Rp.stats["obligations"] = obl.size();
  Rp.stats["discharged"] = obl.size() - bad;
}

// settings keep to their legal range whatever was written to them
static void anLimits(Ctx &C, Report &Rp) {
  auto R = solve(C, Rp);
  struct L { const char *st, *mem; int64_t lo, hi; const char *what; };
  static const L tab[] = {
      {"s_voice_mgr_tag", "maxPolyphony", 1, 64, "synthesizer polyphony"},
      {"s_synth_tag", "maxPolyphony", 0, 64, "stream polyphony"},
      {"s_eas_data_tag", "masterVolume", 0, 100, "master volume"},
      {"s_eas_stream_tag", "volume", 0, 100, "stream volume"},
      {"s_eas_stream_tag", "frameLength", 0, 2972, "frame length"},
      {"S_REVERB_OBJECT", "m_nWet", 0, 32767, "reverb wet level"},
      {"S_REVERB_OBJECT", "m_nDry", 0, 32767, "reverb dry level"},
      {"S_REVERB_OBJECT", "m_nNextRoom", 0, 3, "reverb preset"},
      {"S_CHORUS_OBJECT", "m_nNextChorus", 0, 3, "chorus preset"},
      {"S_CHORUS_OBJECT", "m_nLevel", 0, 32767, "chorus level"},
      {"s_synth_channel_tag", "pitchBend", 0, 16383, "pitch bend"},
  };
  for (auto &l : tab) {
    auto *T = structByName(C.P, l.st);
    int idx = -1;
    if (T)
      for (unsigned i = 0; i < T->getNumElements(); i++)
        if (fieldName(C.P, l.st, i, T) == l.mem) idx = i;
    if (idx < 0 || !T->getElementType(idx)->isIntegerTy()) { Rp.broken.push_back("field " + std::string(l.st) + "." + l.mem + " not found"); continue; }
    unsigned b = T->getElementType(idx)->getIntegerBitWidth();
    auto r = R->fieldRange(std::string(l.st) + "#" + std::to_string(idx), b);
    Rp.note("fields", std::string(l.what) + ": " + str(r) + (R->closedField(std::string(l.st) + "#" + std::to_string(idx)) ? "" : " open"));
    Rp.stats["obligations"]++;
    auto okr = ConstantRange::getNonEmpty(APInt(b, (uint64_t)l.lo, true), APInt(b, (uint64_t)l.hi + 1, true));
    if (!R->closedField(std::string(l.st) + "#" + std::to_string(idx)) || !okr.contains(r))
      Rp.add(std::string(l.st) + "." + l.mem, "field " + std::string(l.st) + "." + l.mem, std::string(l.what) + " may become " + str(r) + ", legal range is " + std::to_string(l.lo) + ".." + std::to_string(l.hi));
  }
}

// no state outside the instance: writable statics are neither written nor handed out by live code
static void anIsolation(Ctx &C, Report &Rp) {
  auto R = solve(C, Rp);
  long all = 0, mut = 0, uses = 0;
  std::set<const GlobalVariable *> M;
  for (GlobalVariable &G : C.P.M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    all++;
    if (!G.isConstant()) M.insert(&G), mut++, Rp.note("writable_statics", G.getName().str());
  }
  std::function<const GlobalVariable *(const Value *, int)> glob = [&](const Value *v, int d) -> const GlobalVariable * {
    if (d > 6) return nullptr;
    v = decompose(v).root;
    if (auto *G = dyn_cast<GlobalVariable>(v)) return M.count(G) ? G : nullptr;
    if (auto *E = dyn_cast<ConstantExpr>(v)) return glob(E->getOperand(0), d + 1);
    return nullptr;
  };
  std::function<void(const Constant *, const std::string &, int)> table = [&](const Constant *K, const std::string &who, int d) {
    if (d > 8) return;
    if (auto *G = dyn_cast<GlobalVariable>(K)) { if (M.count(G)) Rp.add("table:" + who, "static table " + who, "constant table " + who + " hands out the address of writable static " + G->getName().str()); return; }
    for (auto &o : K->operands())
      if (auto *k = dyn_cast<Constant>(o.get())) table(k, who, d + 1);
  };
  for (GlobalVariable &G : C.P.M->globals())
    if (G.isConstant() && !G.getName().starts_with("llvm.") && G.hasInitializer())
      for (auto &o : G.getInitializer()->operands()) table(cast<Constant>(o.get()), G.getName().str(), 0);
  visitAll(*R, Rp, [&](const Instruction *I, const BState &S) {
    if (isDbg(I)) return;
    auto bad = [&](const GlobalVariable *G, const std::string &how) {
      Rp.add(srcFunc(I) + ":" + G->getName().str(), loc(I), "static object " + G->getName().str() + " is " + how + ": its content is shared by all instances");
    };
    auto peel = [&](const Value *v) {
      std::set<const Value *> seen;
      std::vector<const Value *> w{v};
      const GlobalVariable *g = nullptr;
      while (!w.empty() && !g) {
        auto *x = w.back();
        w.pop_back();
        if (!seen.insert(x).second || !x->getType()->isPointerTy()) continue;
        g = glob(x, 0);
        auto *r = decompose(x).root;
        if (auto *P = dyn_cast<PHINode>(r)) for (auto &o : P->incoming_values()) w.push_back(o);
        if (auto *Se = dyn_cast<SelectInst>(r)) w.push_back(Se->getTrueValue()), w.push_back(Se->getFalseValue());
      }
      return g;
    };
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (auto *G = peel(L->getPointerOperand())) uses++, Rp.note("reads", loc(I) + ": " + G->getName().str());
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(I)) {
      if (auto *G = peel(St->getPointerOperand())) uses++, bad(G, "written");
      if (auto *G = peel(St->getValueOperand())) uses++, bad(G, "made reachable through instance data");
      return;
    }
    if (auto *Cl = dyn_cast<CallBase>(I)) {
      if (isField0(Cl)) return;
      for (auto &a : Cl->args())
        if (auto *G = peel(a)) uses++, bad(G, "passed to " + (calleeName(Cl).empty() ? "a callback" : calleeName(Cl)));
      return;
    }
    if (auto *Rt = dyn_cast<ReturnInst>(I); Rt && Rt->getReturnValue())
      if (auto *G = peel(Rt->getReturnValue())) uses++, bad(G, "returned");
  });
  Rp.stats["statics"] = all;
  Rp.stats["writable"] = mut;
  Rp.stats["uses_in_live_code"] = uses;
}

static NormOpts rangeOpts() {
  NormOpts o;
  o.thread = false;
  return o;
}
static Reg r1("index", anIndex, rangeOpts());
static Reg r2("arith", anArith, rangeOpts());
static Reg r3("exit", anExit, rangeOpts());
static Reg r4("saturate", anSaturate, rangeOpts());
static Reg r5("limits", anLimits, rangeOpts());
static Reg r6("isolation", anIsolation, rangeOpts());

namespace sv { std::unique_ptr<Ranges> solveRanges(Ctx &C, Report &Rp) { return solve(C, Rp); } }
