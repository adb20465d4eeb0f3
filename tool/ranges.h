// Whole-program interval analysis (ConstantRange domain) with branch refinement,
// interprocedural argument/return ranges and flow-insensitive struct-field invariants.
#pragma once
#include "ir.h"
#include "llvm/IR/ConstantRange.h"
namespace sv {
struct Cell { // known content of one memory location
  ConstantRange r;
  const Value *val; // SSA value equal to the content, or null
  bool dirty;       // written here and not yet published to the field invariant
};
struct Corr { // content of a local after a call, split on the call's result
  const Value *call;
  unsigned id;
  ConstantRange z, nz;
};
struct BState {
  bool reach = false;
  std::vector<Corr> corr;
  std::map<const Value *, const Argument *> eqArg; // value known equal to an argument
  DenseMap<const Value *, ConstantRange> ref; // refinements
  std::map<const Value *, std::set<uint64_t>> sets; // value known to be one of a few constants
  std::map<const Value *, std::set<uint64_t>> excl; // constants a value is known to differ from
  std::map<unsigned, Cell> mem;               // address id -> content
};
class Ranges {
public:
  Ranges(Program &P, const std::set<std::string> &roots);
  void solve();
  // One state-machine struct: its control fields (each cut into value classes, class 0 containing 0)
  // and the data fields whose content depends on them. The function driving the machine is analysed
  // once per reachable control tuple.
  struct DisjSpec {
    std::string st;
    std::vector<std::pair<std::string, std::vector<ConstantRange>>> ctl;
    std::vector<std::string> data;
    struct Forget { unsigned ctl, cls, drop; }; // component drop is not tracked while ctl is in class cls
    std::vector<Forget> forget;
    // value of the machine's mode argument for which the stream is only scanned: such a scan is
    // followed by a reset of the stream, so its exits do not feed the other modes
    int scanMode = -1;
  };
  // the field is always given a value before it is read: the zero of fresh memory is not part of its content
  void assumeInit(const std::string &st, const std::string &member);
  std::set<std::string> initFirst;
  void disjunct(const DisjSpec &sp);
  unsigned tupleCount() const { return facts.tuples.size(); }
  void dumpTuples(raw_ostream &o) {
    for (auto &kv : facts.tuples) {
      o << "tuple";
      for (unsigned x : kv.first) o << " " << (x == Any ? -1 : (int)x);
      for (auto &r : kv.second) { o << " "; r.print(o); }
      o << "\n";
    }
  }
  const Function *machine() const { return dj.F; }
  // walk every reachable instruction of F with the refined state at that point
  void visit(const Function &F, std::function<void(const Instruction *, const BState &)> cb);
  ConstantRange at(const Value *V, const BState &S, int depth = 6);
  bool nonZero(const Value *V, const BState &S, int depth = 4);
  bool analysed(const Function *F) const { return live.count(F); }
  ConstantRange fieldRange(const std::string &key, unsigned bits);
  bool closedField(const std::string &key) { return !openFields.count(key); }
  unsigned passes = 0;
  bool converged = false;
  static ConstantRange widenCR(const ConstantRange &o, const ConstantRange &n);
  std::set<const Function *> live, rootFns;
  std::set<std::string> openFields;

private:
  Program &P;
  struct Facts {
    std::map<std::string, ConstantRange> fieldR; // "Struct#idx"
    std::map<const Argument *, ConstantRange> argR;
    std::map<const Value *, ConstantRange> argCell; // stores through pointer argument
    std::map<const Function *, ConstantRange> retR;
    std::map<const AllocaInst *, ConstantRange> allocR;
    std::map<std::vector<unsigned>, std::vector<ConstantRange>> tuples; // state machine: reachable control tuples and data content
    struct Out {
      std::optional<ConstantRange> z, nz; // content stored through the parameter at zero / non-zero returns
      bool keepZ = false, keepNZ = false; // parameter possibly not written
      int eqZ = -1;                       // at zero returns equal to this argument (-1 unset, -2 none)
    };
    std::map<const Argument *, Out> outs;
  };
  enum : unsigned { Any = ~0u };
  struct Disj {
    DisjSpec spec;
    const Function *F = nullptr;
    const Value *root = nullptr;
    std::vector<std::string> ctl, data;
    std::set<const BasicBlock *> tail, retTouch;
    std::map<std::string, unsigned> ids; // key -> address id inside F
  } dj;
  struct DjCtx {
    DenseMap<const Value *, ConstantRange> R;
    DenseMap<const BasicBlock *, BState> in;
  };
  std::map<std::vector<unsigned>, DjCtx> djCtx;
  std::vector<unsigned> curTuple;
  const Function *curF = nullptr;
  bool disjOwn = false;
  bool disjOn();
  std::vector<unsigned> classesOf(unsigned ctl, const ConstantRange &r);
  void dropExcluded(unsigned ctl, const Cell &c, const BState &S, std::vector<unsigned> &cls);
  ConstantRange classHull(unsigned ctl, const Cell &c, const BState &S);
  void computeTail();
  void addTuple(std::vector<unsigned> t, const std::vector<ConstantRange> &data);
  void disjForeign(const std::string &key, const ConstantRange &r);
  void seedTuple(const std::vector<unsigned> &t, const std::vector<ConstantRange> &data, BState &S);
  void exitTuple(const BState &S);
  void perTuple(const Function &F, std::function<void()> body);
  void analyse1(const Function &F);
  std::map<std::pair<std::string, uint64_t>, ConstantRange> maskMemo;
  std::map<std::string, std::vector<const StoreInst *>> storesOf;
  std::set<std::string> maskBusy;
  ConstantRange maskedField(const std::string &key, const LoadInst *L, const APInt &mask);
  void dropCell(unsigned id, BState &S);
  Facts facts, *Rd = &facts, *W = &facts;
  std::map<std::string, ConstantRange> initR;
  DenseMap<const Value *, ConstantRange> R; // SSA def ranges (ints)
  DenseSet<const Value *> argCellOpen;
  std::map<const Function *, DenseMap<const BasicBlock *, BState>> in; // block out-states
  std::set<const AllocaInst *> allocOpen;
  bool changed = false;
  bool widen = false, narrowing = false;
  unsigned round = 0;

  void initGlobals();
  // memory cells
  struct AddrInfo {
    std::string key;               // field key, "" for an alloca
    const AllocaInst *al = nullptr;
    const Argument *arg = nullptr;
    const Value *root = nullptr;
    unsigned bits = 0;
  };
  std::map<std::vector<uint64_t>, unsigned> addrIds;
  std::vector<AddrInfo> addrs;
  std::map<const Value *, std::set<unsigned>> addrDeps;
  DenseMap<const Value *, int> ptrAddr; // cache
  std::map<std::string, std::set<unsigned>> addrOfKey;
  int addrOf(const Value *ptr, unsigned bits);
  ConstantRange cellRange(const Cell &c, const BState &S);
  void publish(unsigned id, const ConstantRange &r);
  void killDeps(const Value *V, BState &S);
  std::map<const Function *, std::set<std::string>> mods; // fields a function may write (transitively)
  std::set<const Function *> modsAll;
  std::map<const Function *, std::set<std::string>> uses;
  std::set<std::string> escaped;
  void computeMods();
  void plainDest(const CallBase *C, const AllocaInst *&al, std::string &only);
  bool simplePtrArg(const Value *arg, unsigned bits, int depth);
  // loop-relative bounds of header phis
  struct PhiInfo {
    const Value *init;
    const BasicBlock *latchPred;
    std::vector<const Value *> inits;
    APInt lo, hi; // change per iteration
    bool exact = false;
    std::vector<const PHINode *> sib; // exact induction variables of the same header
  };
  std::map<const PHINode *, PhiInfo> phiInfo;
  std::set<const Function *> phiDone;
  void computePhis(const Function &F);
  ConstantRange phiBound(const PHINode *Ph, const BState &S);

public:
  // byte offset range of a loop-header pointer phi relative to its initial value(s); nullopt if unbounded
  struct PtrPhi { std::vector<const Value *> inits; APInt lo, hi; };
  std::optional<PtrPhi> ptrPhi(const PHINode *Ph, const BState &S);

private:
  bool entryState(const BasicBlock *B, BState &S, SmallVectorImpl<std::pair<const PHINode *, ConstantRange>> &ph);
  void prepareFields();
  void openStruct(const StructType *T, std::set<const StructType *> &seen);
  void analyse(const Function &F);
  bool assume(const Value *C, bool truth, BState &S, int depth = 8);
  bool refine(const Value *V, ConstantRange r, BState &S, int depth = 6);
  ConstantRange eval(const Instruction *I, const BState &S, int depth);
  ConstantRange loadRange(const LoadInst *L);
  void recordStore(const Value *ptr, const Value *val, const BState &S);
  void joinField(const std::string &k, const ConstantRange &r);
  std::optional<ConstantRange> defRange(const Value *V);
  void setDef(const Instruction *I, ConstantRange r);
  void exclude(const Value *V, const APInt &k, BState &S);
  bool edgeState(const BasicBlock *from, const BasicBlock *to, BState &S, unsigned succIdx);
  void transfer(const Instruction *I, BState &S);
  std::string key(const Value *ptr, bool *ok);
  void keys(const Value *ptr, std::set<std::string> &out, std::set<const Value *> &roots);
};
} // namespace sv
