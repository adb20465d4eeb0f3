// What is known about each bit of a value: constant, copy of a bit of a named input, or unknown.
// Used to compare what a path stores or passes on with what a specification says, however it is written.
#pragma once
#include "walk.h"
#include "llvm/Support/KnownBits.h"
namespace sv {
struct Bits {
  std::vector<long> b; // 0, 1, -1 unknown, else 2 + sym * 64 + bit
  unsigned w() const { return b.size(); }
  bool operator==(const Bits &o) const { return b == o.b; }
  bool known() const { for (long x : b) if (x < 0) return false; return true; }
  bool constant() const { for (long x : b) if (x < 0 || x > 1) return false; return true; }
  uint64_t value() const { uint64_t v = 0; for (unsigned i = 0; i < b.size(); i++) if (b[i] == 1) v |= 1ull << i; return v; }
  Bits zext(unsigned n) const { Bits r = *this; r.b.resize(n, 0); return r; }
  Bits sext(unsigned n) const { Bits r = *this; r.b.resize(n, b.empty() ? 0 : b.back()); return r; }
  Bits trunc(unsigned n) const { Bits r = *this; r.b.resize(n); return r; }
  Bits shl(unsigned k) const { Bits r; for (unsigned i = 0; i < w(); i++) r.b.push_back(i < k ? 0 : b[i - k]); return r; }
  Bits shr(unsigned k, bool arith = false) const { Bits r; for (unsigned i = 0; i < w(); i++) r.b.push_back(i + k < w() ? b[i + k] : arith ? b.back() : 0); return r; }
  static Bits unknown(unsigned n) { Bits r; r.b.assign(n, -1); return r; }
  static Bits num(unsigned n, uint64_t v) { Bits r; for (unsigned i = 0; i < n; i++) r.b.push_back(i < 64 ? (v >> i) & 1 : 0); return r; }
  friend Bits operator&(const Bits &x, const Bits &y) {
    Bits r;
    for (unsigned i = 0; i < x.w(); i++) r.b.push_back(x.b[i] == 0 || y.b[i] == 0 ? 0 : x.b[i] == 1 ? y.b[i] : y.b[i] == 1 ? x.b[i] : x.b[i] == y.b[i] ? x.b[i] : -1);
    return r;
  }
  friend Bits operator|(const Bits &x, const Bits &y) {
    Bits r;
    for (unsigned i = 0; i < x.w(); i++) r.b.push_back(x.b[i] == 1 || y.b[i] == 1 ? 1 : x.b[i] == 0 ? y.b[i] : y.b[i] == 0 ? x.b[i] : x.b[i] == y.b[i] ? x.b[i] : -1);
    return r;
  }
  friend Bits operator^(const Bits &x, const Bits &y) {
    Bits r;
    for (unsigned i = 0; i < x.w(); i++)
      r.b.push_back(x.b[i] == 0 ? y.b[i] : y.b[i] == 0 ? x.b[i] : x.b[i] >= 0 && x.b[i] == y.b[i] ? 0 : x.b[i] == 1 && y.b[i] == 0 ? 1 : -1);
    return r;
  }
  static Bits add(const Bits &x, const Bits &y) {
    Bits r;
    long c = 0;
    for (unsigned i = 0; i < x.w(); i++) {
      long v[3] = {x.b[i], y.b[i], c}, s = -1, n = -1;
      std::sort(v, v + 3); // unknown first, then constants, then inputs
      int z = 0, o = 0;
      long other = 0;
      bool hasOther = false;
      for (long t : v) if (t == 0) z++; else if (t == 1) o++; else other = t, hasOther = true;
      if (!hasOther) s = o & 1, n = o >> 1;
      else if (z == 2) s = other, n = 0;
      else if (z == 1 && o == 1) s = -1, n = other;   // 1 + x: sum is the complement
      else if (o == 2) s = other, n = 1;
      r.b.push_back(s);
      c = n;
    }
    return r;
  }
  static Bits sub(const Bits &x, const Bits &y) {
    Bits r;
    long c = 0; // borrow
    for (unsigned i = 0; i < x.w(); i++) {
      long a = x.b[i], d = y.b[i], s = -1, n = -1;
      if (c == 0 && d == 0) s = a, n = 0;
      else if (c == 0 && a >= 0 && a == d) s = 0, n = 0;
      else if (a >= 0 && a <= 1 && d >= 0 && d <= 1 && c >= 0 && c <= 1) { long t = a - d - c; s = t & 1; n = t < 0; }
      r.b.push_back(s);
      c = n;
    }
    return r;
  }
  std::string str() const {
    if (constant()) { char t[40]; snprintf(t, sizeof t, "0x%llx", (unsigned long long)value()); return t; }
    std::string s;
    for (unsigned i = w(); i-- > 0;) s += b[i] < 0 ? "?" : b[i] == 0 ? "0" : b[i] == 1 ? "1" : "s" + std::to_string((b[i] - 2) / 64) + "." + std::to_string((b[i] - 2) % 64) + " ";
    return s;
  }
};

struct Syms {
  std::map<const Value *, int> id;
  std::function<const Value *(const Value *)> rep; // one value for all that are known to be the same input
  const std::map<long, int> *fix = nullptr; // bits of inputs that are taken as given
  int of(const Value *v) { if (rep) v = rep(v); auto it = id.find(v); if (it != id.end()) return it->second; int n = id.size(); return id[v] = n; }
  // the bits of an input whose range is known
  static Bits leaf(int sym, unsigned w, const ConstantRange &r) {
    Bits b;
    KnownBits k = r.isEmptySet() ? KnownBits(w) : r.toKnownBits();
    for (unsigned i = 0; i < w; i++) b.b.push_back(k.Zero[i] ? 0 : k.One[i] ? 1 : i < 64 ? 2 + (long)sym * 64 + i : -1);
    return b;
  }
  Bits eval(Walk &W, const WState &S, const Value *v, int depth = 14) {
    if (!v->getType()->isIntegerTy()) return Bits::unknown(64);
    unsigned w = v->getType()->getIntegerBitWidth();
    v = W.canon(S, v);
    if (auto *K = dyn_cast<ConstantInt>(v)) return Bits::num(w, K->getValue().getLoBits(std::min(w, 64u)).getZExtValue());
    auto *I = dyn_cast<Instruction>(v);
    ConstantRange rg = W.get(S, v);
    Bits r = Bits::unknown(w);
    bool is = I && depth;
    if (is) {
      auto op = [&](unsigned i) { return eval(W, S, I->getOperand(i), depth - 1); };
      auto K = [&](unsigned i) { return dyn_cast<ConstantInt>(I->getOperand(i)); };
      switch (I->getOpcode()) {
      case Instruction::ZExt: r = op(0).zext(w); break;
      case Instruction::SExt: r = op(0).sext(w); break;
      case Instruction::Trunc: r = op(0).trunc(w); break;
      case Instruction::Freeze: r = op(0); break;
      case Instruction::And: r = op(0) & op(1); break;
      case Instruction::Or: r = op(0) | op(1); break;
      case Instruction::Xor: r = op(0) ^ op(1); break;
      case Instruction::Add: r = Bits::add(op(0), op(1)); break;
      case Instruction::Sub: r = Bits::sub(op(0), op(1)); break;
      case Instruction::Shl: if (auto *k = K(1)) r = op(0).shl(k->getLimitedValue(w)); break;
      case Instruction::LShr: if (auto *k = K(1)) r = op(0).shr(k->getLimitedValue(w)); break;
      case Instruction::AShr: if (auto *k = K(1)) r = op(0).shr(k->getLimitedValue(w), true); break;
      case Instruction::UDiv: if (auto *k = K(1); k && k->getValue().isPowerOf2()) r = op(0).shr(k->getValue().logBase2()); break;
      case Instruction::URem: if (auto *k = K(1); k && k->getValue().isPowerOf2()) r = op(0) & Bits::num(w, k->getZExtValue() - 1); break;
      case Instruction::Mul: if (auto *k = K(1); k && k->getValue().isPowerOf2()) r = op(0).shl(k->getValue().logBase2()); break;
      case Instruction::Select: {
        auto c = W.get(S, I->getOperand(0));
        if (c.isSingleElement()) r = op(c.getSingleElement()->isOne() ? 1 : 2);
        else { r = op(1); Bits f = op(2); for (unsigned i = 0; i < w; i++) if (r.b[i] != f.b[i]) r.b[i] = -1; }
        break;
      }
      default: is = false;
      }
    }
    if (!is) { r = leaf(of(v), w, rg); if (fix) for (auto &x : r.b) if (auto f = fix->find(x); f != fix->end()) x = f->second; }
    else if (!rg.isEmptySet()) {
      KnownBits k = rg.toKnownBits();
      for (unsigned i = 0; i < w; i++) if (r.b[i] < 0 || r.b[i] > 1) { if (k.Zero[i]) r.b[i] = 0; else if (k.One[i]) r.b[i] = 1; }
    }
    return r;
  }
};
} // namespace sv
