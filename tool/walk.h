// Path-sensitive forward dataflow over one function (property simulation): a set of states per
// block, each a typestate plus known facts (value ranges, contents of memory cells); states with
// the same typestate are merged once a block holds more than a few of them.
#pragma once
#include "ir.h"
#include "llvm/IR/ConstantRange.h"
namespace sv {

// which fields a function may write, transitively
struct ModRef {
  Program &P;
  std::map<const Function *, std::set<std::string>> mods; // "Struct#idx", or "*" for a plain pointer
  std::map<const Function *, std::set<unsigned>> raw; // parameters written through without naming a field
  std::map<const Function *, std::set<unsigned>> pub; // parameters whose value is stored somewhere
  std::map<const Value *, bool> localOnly;
  std::map<const Function *, std::vector<APInt>> rets; // functions that return only these constants
  bool local(const AllocaInst *A);                    // its address never leaves the calls it is passed to
  std::set<std::string> taken;                        // fields whose address is passed on or stored
  explicit ModRef(Program &P);
  static std::string fieldKey(const Value *ptr); // last struct field of the address, "" if none
};

struct WState {
  std::vector<int> ts;                             // typestate, owned by the rule
  std::map<const Value *, ConstantRange> fact;     // refined values (pointers as 64 bit)
  std::map<const Value *, const Value *> same;     // value known equal to an older value
  std::map<std::string, const Value *> mem;        // cell -> value it holds
  std::vector<const Instruction *> trail;          // branches taken, for the report
  bool sameFacts(const WState &o) const { return ts == o.ts && fact == o.fact && same == o.same && mem == o.mem; }
};

struct Walk {
  Program &P;
  const Function &F;
  ModRef &MR;
  unsigned maxStates = 12;
  long visited = 0;
  bool overflow = false;
  bool stop = false; // set by a hook: nothing more to learn
  // rule hooks. An instruction hook may change the state, split it (append to extra), or stop the path (return false).
  std::function<bool(const Instruction *, WState &, std::vector<WState> &extra)> inst;
  std::function<void(const Instruction *, WState &)> pre; // before the effects of the instruction
  std::function<void(const ReturnInst *, WState &)> ret;
  std::function<void(const BasicBlock *from, const BasicBlock *to, WState &)> edge;
  std::function<void(const BasicBlock *from, const BasicBlock *to, const WState &)> leave; // before the phis of 'to' are assigned
  // fields never written after initialisation (constant interface tables)
  std::function<bool(const std::string &)> constField;

  Walk(Program &P, const Function &F, ModRef &MR) : P(P), F(F), MR(MR) {}
  void run(const WState &init);                             // from the entry
  void runAfter(const Instruction *I, const WState &init);  // from just behind I

  ConstantRange get(const WState &S, const Value *V, int depth = 5);
  bool refine(WState &S, const Value *V, const ConstantRange &r, int depth = 5);
  bool assume(WState &S, const Value *cond, bool truth, int depth = 6);
  bool isZero(const WState &S, const Value *V) { auto r = get(S, V); return r.isSingleElement() && r.getSingleElement()->isZero(); }
  bool nonZero(const WState &S, const Value *V) { auto r = get(S, V); return !r.contains(APInt::getZero(r.getBitWidth())); }
  const Value *canon(const WState &S, const Value *V);
  static unsigned bits(const Value *V);
  static bool tracked(const Value *V) { return V->getType()->isPointerTy() || V->getType()->isIntegerTy(); }
  std::string cell(const WState &S, const Value *ptr); // "" when the address is not a fixed cell
  void kill(WState &S, const Value *V);
  static std::vector<std::string> path(const WState &S);

private:
  std::map<std::pair<const Value *, const Value *>, bool> dep;
  static bool computedFrom(const Value *T, const Value *V, int depth);
  bool stale(const Value *T, const Value *V);
  std::map<const BasicBlock *, std::vector<WState>> in;
  std::vector<const BasicBlock *> work;
  std::map<const BasicBlock *, unsigned> order;
  void add(const BasicBlock *from, const BasicBlock *to, WState S);
  void block(const BasicBlock *B, BasicBlock::const_iterator it, WState S);
  void loop();
  void exec(const Instruction *I, WState &S);
};
} // namespace sv
