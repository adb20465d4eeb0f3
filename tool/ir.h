// Shared infrastructure: load + normalise the program's LLVM IR, name fields,
// resolve callees through interface tables, print locations.
#pragma once
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace sv {
using namespace llvm;

struct NormOpts {
  unsigned inlineLimit = 400; // max callee size (instructions) to inline
  bool inlineStatics = true;
  bool gvn = true;
  bool thread = true; // jump threading
  std::set<std::string> keep; // never inline these
  std::set<std::string> into; // functions into which everything else is inlined, static or not
};

struct Program {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  std::string config;
  std::map<std::string, std::vector<Function *>> slotTargets; // "Struct#k" -> functions
  std::map<std::string, std::vector<GlobalVariable *>> slotTables; // "Struct" -> tables
  std::set<Function *> addrTaken;
  // struct debug info: canonical struct name -> (byte offset -> member name)
  std::map<std::string, std::map<uint64_t, std::string>> members;
  std::map<std::string, std::map<std::string, uint64_t>> memberOfs;
  std::map<std::string, std::map<std::string, std::string>> memberType; // declared type name (element type for arrays)
  std::map<std::string, std::string> structAlias;
  const DataLayout &DL() const { return M->getDataLayout(); }
};

// replace the loops of a function whose trip count is a known constant by that many copies of their body, and fold
void unrollFully(Function &F);
std::unique_ptr<Program> loadProgram(const std::vector<std::string> &files, const NormOpts &o);

std::string structName(const StructType *T); // "struct.s_eas_data_tag.12" -> "s_eas_data_tag"
bool isField0(const Value *V);               // call @sv.field0.*
// Address decomposition --------------------------------------------------------
struct Step {
  enum K { Field, Index } k;
  std::string st; // struct name (Field)
  unsigned idx = 0; // field index
  Type *elemTy = nullptr;  // Index: element type
  uint64_t arrLen = 0;     // Index into a known-length array (0 = pointer arithmetic)
  const Value *var = nullptr; // Index: variable index (may be ConstantInt)
  const Instruction *at = nullptr;
};
struct Addr {
  const Value *root = nullptr;
  std::vector<Step> steps;
  std::string str(const Program &P) const;
  // innermost field "Struct.member" or ""
  std::string field(const Program &P) const;
  std::string outerPath(const Program &P) const;
};
Addr decompose(const Value *ptr);
std::string fieldName(const Program &P, const std::string &st, unsigned idx, const StructType *T = nullptr);
const StructType *structByName(const Program &P, const std::string &n);

std::vector<const Function *> callees(const Program &P, const CallBase *C, bool *unknown = nullptr, std::string *slot = nullptr);
std::string calleeName(const CallBase *C); // direct name or ""
std::string slotOf(const Program &P, const Value *fp); // "Struct.member" the called pointer was loaded from

// Locations
std::string srcFunc(const Instruction *I); // source-level function (inlined-at aware)
unsigned srcLine(const Instruction *I);
std::string srcFile(const Instruction *I);
std::string loc(const Instruction *I); // file:line (function)
std::string locF(const Function *F);
bool isDbg(const Instruction *I);
const Value *stripCasts(const Value *V);
} // namespace sv
