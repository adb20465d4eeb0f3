// The built-in sound bank: its constant tables are decided entry by entry from their initialisers.
#include "report.h"
#include <cmath>
using namespace sv;

namespace {
struct Data {
  Program &P;
  // scalar at a byte offset inside a constant initialiser
  const Constant *at(const Constant *C, uint64_t ofs, Type *want) {
    const DataLayout &DL = P.DL();
    while (true) {
      Type *T = C->getType();
      if (T == want && !ofs) return C;
      if (auto *ST = dyn_cast<StructType>(T)) {
        auto *SL = DL.getStructLayout(ST);
        if (ofs >= SL->getSizeInBytes()) return nullptr;
        unsigned i = SL->getElementContainingOffset(ofs);
        ofs -= SL->getElementOffset(i);
        C = C->getAggregateElement(i);
      } else if (auto *AT = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL.getTypeAllocSize(AT->getElementType());
        if (!es || ofs / es >= AT->getNumElements()) return nullptr;
        C = C->getAggregateElement(ofs / es);
        ofs %= es;
      } else
        return nullptr;
      if (!C) return nullptr;
    }
  }
};
const Constant *strip(const Constant *C) {
  while (auto *E = dyn_cast_or_null<ConstantExpr>(C)) {
    if (E->isCast()) C = E->getOperand(0);
    else break;
  }
  return C;
}
// struct type of a typedef'd debug type name
const DIType *bare(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    auto t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type) T = D->getBaseType();
    else break;
  }
  return T;
}
// members of a debug struct: name -> (byte offset, size in bytes, pointee/elem)
struct Mem { uint64_t ofs, size; const DIType *ty; };
std::map<std::string, Mem> membersOf(const DIType *T, const std::string &pre = "", uint64_t base = 0) {
  std::map<std::string, Mem> r;
  auto *C = dyn_cast_or_null<DICompositeType>(bare(T));
  if (!C) return r;
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E)) {
      uint64_t o = base + D->getOffsetInBits() / 8;
      r[pre + D->getName().str()] = {o, D->getSizeInBits() / 8, D->getBaseType()};
      auto *B = dyn_cast_or_null<DICompositeType>(bare(D->getBaseType()));
      if (B && B->getTag() == dwarf::DW_TAG_structure_type)
        for (auto &m : membersOf(B, pre + D->getName().str() + ".", o)) r.insert(m);
    }
  return r;
}
} // namespace

static void anBank(Ctx &C, Report &R) {
  Program &P = C.P;
  const DataLayout &DL = P.DL();
  Data D{P};
  long banks = 0, nreg = 0, nprog = 0, nart = 0, nsmp = 0, found = 0, covered = 0, cmps = 0, tuned = 0;
  for (GlobalVariable &G : P.M->globals()) {
    if (!G.hasInitializer()) continue;
    SmallVector<DIGlobalVariableExpression *, 1> GV;
    G.getDebugInfo(GV);
    if (GV.empty()) continue;
    auto *DT = GV[0]->getVariable()->getType();
    // declared type (through const) named S_EAS
    const DIType *T = DT;
    while (auto *Q = dyn_cast_or_null<DIDerivedType>(T)) {
      if (Q->getTag() == dwarf::DW_TAG_typedef && Q->getName() == "S_EAS") break;
      if (Q->getTag() == dwarf::DW_TAG_const_type) T = Q->getBaseType();
      else { T = nullptr; break; }
    }
    if (!T || !isa<DIDerivedType>(T)) continue;
    found++;
    std::string gn = G.getName().str(), where = GV[0]->getVariable()->getFilename().str() + ":" + std::to_string(GV[0]->getVariable()->getLine()) + " (" + gn + ")";
    where = where.substr(where.rfind('/') == std::string::npos ? 0 : where.rfind('/') + 1);
    if (!G.isConstant()) R.add("bank-writable", where, "the built-in sound library is not constant");
    auto M = membersOf(T);
    const Constant *I = G.getInitializer();
    auto num = [&](const Constant *Cn, const std::map<std::string, Mem> &Ms, const std::string &f, uint64_t base, bool sgn = false) -> std::optional<int64_t> {
      auto it = Ms.find(f);
      if (it == Ms.end()) return std::nullopt;
      auto *c = D.at(Cn, base + it->second.ofs, IntegerType::get(P.ctx, it->second.size * 8));
      if (!c) return std::nullopt;
      if (auto *ci = dyn_cast<ConstantInt>(c)) return sgn ? ci->getSExtValue() : (int64_t)ci->getZExtValue();
      if (isa<ConstantAggregateZero>(c) || c->isNullValue()) return 0;
      return std::nullopt;
    };
    struct Tab { const GlobalVariable *G = nullptr; const Constant *I = nullptr; uint64_t n = 0, es = 0; std::map<std::string, Mem> m; Type *et = nullptr; std::string where; };
    auto table = [&](const std::string &f) {
      Tab t;
      auto it = M.find(f);
      if (it == M.end()) { R.broken.push_back("the sound library has no member " + f); return t; }
      auto *c = strip(D.at(I, it->second.ofs, PointerType::get(P.ctx, 0)));
      if (!c || c->isNullValue()) return t;
      auto *tg = dyn_cast<GlobalVariable>(c);
      if (!tg || !tg->hasInitializer()) { R.broken.push_back("member " + f + " of the sound library is not the address of a table with contents"); return t; }
      t.G = tg; t.I = tg->getInitializer();
      auto *PD = dyn_cast_or_null<DIDerivedType>(bare(it->second.ty));
      if (PD && PD->getTag() == dwarf::DW_TAG_pointer_type) {
        t.m = membersOf(PD->getBaseType());
        if (auto *B = bare(PD->getBaseType())) t.es = B->getSizeInBits() / 8;
      }
      if (!t.es) { R.broken.push_back("element size of " + f + " unknown"); return t; }
      // a table with many trailing zeros is laid out by the compiler as a struct of two arrays: go by sizes
      t.n = DL.getTypeAllocSize(tg->getValueType()) / t.es;
      t.et = IntegerType::get(P.ctx, t.es <= 8 ? t.es * 8 : 8);
      t.where = tg->getName().str();
      if (!tg->isConstant()) R.add("bank-table-writable:" + f, where, "table " + t.where + " of the built-in sounds is not constant");
      return t;
    };
    auto cnt = [&](const std::string &f) -> uint64_t {
      auto v = num(I, M, f, 0);
      if (!v) { R.broken.push_back("member " + f + " of the sound library has no constant value"); return 0; }
      return *v;
    };
    auto bad = [&](const std::string &key, const std::string &msg) { R.add(gn + ":" + key, where, msg); };
    Tab B = table("pBanks"), Pr = table("pPrograms"), Rg = table("pWTRegions"), Ar = table("pArticulations"), Sl = table("pSampleLen"), So = table("pSampleOffsets"), Sm = table("pSamples");
    uint64_t nB = cnt("numBanks"), nP = cnt("numPrograms"), nR = cnt("numWTRegions"), nA = cnt("numArticulations"), nS = cnt("numSamples");
    banks++;
    auto count = [&](const char *what, uint64_t n, const Tab &t) {
      cmps++;
      if (n > t.n) bad(std::string("count:") + what, std::string("the library claims ") + std::to_string(n) + " " + what + ", its table " + t.where + " holds " + std::to_string(t.n));
      if (n < t.n) bad(std::string("count:") + what, std::string("the library claims ") + std::to_string(n) + " " + what + ", so " + std::to_string(t.n - n) + " entries of " + t.where + " can not be reached");
    };
    count("banks", nB, B); count("programs", nP, Pr); count("regions", nR, Rg); count("articulations", nA, Ar); count("sample lengths", nS, Sl); count("sample offsets", nS, So);
    if (!Rg.G || !Ar.G || !Sl.G || !So.G || !Sm.G || Rg.m.empty()) { R.broken.push_back("a table of the built-in sounds was not found"); continue; }
    nB = std::min(nB, B.n); nP = std::min(nP, Pr.n); nR = std::min(nR, Rg.n);
    // format word
    uint64_t attr = cnt("libAttr"), id = cnt("identifier");
    if (id != 0x01534145) bad("identifier", "the library identifier is not the one the synthesizer checks for");
    uint64_t want = Sm.es == 2 ? 1 : 0;
    if (((attr >> 21) & 1) != want) bad("format", "the library's sample format flag does not match its sample width of " + std::to_string(Sm.es) + " bytes");
    if (attr & 0xc0000) bad("format-type", "the library is not marked as a wavetable library");
    uint64_t rate = attr & 0x3ffff;
    if (rate != 22050 && rate != 44100) bad("rate", "the library's sample rate is " + std::to_string(rate));
    // regions
    struct Reg { uint64_t flags, lo, hi, ls, le, w, a; int64_t tuning, gain; };
    std::vector<Reg> regs;
    for (uint64_t i = 0; i < nR; i++) {
      auto g = [&](const char *f, bool s = false) -> int64_t {
        auto v = num(Rg.I, Rg.m, f, i * Rg.es, s);
        if (!v) { if (R.broken.size() < 5) R.broken.push_back(std::string("region field ") + f + " has no constant value"); return 0; }
        return *v;
      };
      regs.push_back({(uint64_t)g("region.keyGroupAndFlags"), (uint64_t)g("region.rangeLow"), (uint64_t)g("region.rangeHigh"), (uint64_t)g("loopStart"), (uint64_t)g("loopEnd"), (uint64_t)g("waveIndex"), (uint64_t)g("artIndex"), g("tuning", true), g("gain", true)});
    }
    uint64_t pool = Sm.n * Sm.es;
    auto elem = [&](const Tab &t, uint64_t i) -> uint64_t {
      auto *c = D.at(t.I, i * t.es, t.et);
      if (auto *ci = dyn_cast_or_null<ConstantInt>(c)) return ci->getZExtValue();
      return 0;
    };
    std::set<uint64_t> usedW, usedA;
    for (uint64_t i = 0; i < nR; i++) {
      auto &r = regs[i];
      std::string n = "region " + std::to_string(i);
      auto rb = [&](const std::string &k, const std::string &m) { bad("region-" + k + ":" + std::to_string(i), n + " (entry " + std::to_string(i) + " of " + Rg.where + "): " + m); };
      nreg++;
      cmps += 8;
      if (r.lo > r.hi || r.hi > 127) rb("keys", "its key range " + std::to_string(r.lo) + ".." + std::to_string(r.hi) + " is empty or beyond key 127");
      if (r.a >= nA) rb("articulation", "articulation " + std::to_string(r.a) + " of " + std::to_string(nA) + " does not exist");
      usedA.insert(r.a);
      if (r.flags & 2) continue; // noise generator: plays no sample
      if (r.flags & 4) rb("adpcm", "is marked as compressed, which the synthesizer does not decode");
      if (r.w >= nS || r.w >= Sl.n || r.w >= So.n) { rb("wave", "sample " + std::to_string(r.w) + " of " + std::to_string(nS) + " does not exist"); continue; }
      usedW.insert(r.w);
      uint64_t len = elem(Sl, r.w);
      if (r.flags & 1) {
        if (r.le * Sm.es > len) rb("loop-end", "its loop ends at sample frame " + std::to_string(r.le) + ", behind the end of sample " + std::to_string(r.w) + " (" + std::to_string(len / Sm.es) + " frames)");
        if (r.ls + 1 >= r.le) rb("loop", "its loop " + std::to_string(r.ls) + ".." + std::to_string(r.le) + " is shorter than two frames");
        if (elem(So, r.w) + r.ls * Sm.es < Sm.es) rb("loop-start", "its loop starts with the first frame of the pool, the frame before it does not exist");
      } else if (!(r.flags & 1) && (r.ls || r.le)) {
        // loop points without the flag: not played
      }
    }
    // samples
    std::vector<std::pair<uint64_t, uint64_t>> spans;
    for (uint64_t i = 0; i < nS && i < Sl.n && i < So.n; i++) {
      uint64_t o = elem(So, i), l = elem(Sl, i);
      nsmp++;
      cmps += 4;
      auto sb = [&](const std::string &k, const std::string &m) { bad("sample-" + k + ":" + std::to_string(i), "sample " + std::to_string(i) + " (offset " + std::to_string(o) + ", " + std::to_string(l) + " bytes): " + m); };
      if (o + l > pool || o + l < o) sb("end", "ends behind the pool " + Sm.where + " of " + std::to_string(pool) + " bytes");
      if (o % Sm.es || l % Sm.es) sb("align", "is not a whole number of frames");
      if (l < 2 * Sm.es) sb("short", "is shorter than two frames");
      if (!usedW.count(i)) R.note("samples no region plays", std::to_string(i));
      spans.push_back({o, o + l});
    }
    std::sort(spans.begin(), spans.end());
    for (size_t i = 1; i < spans.size(); i++)
      if (spans[i].first < spans[i - 1].second && spans[i] != spans[i - 1]) bad("sample-overlap:" + std::to_string(spans[i].first), "the samples at offsets " + std::to_string(spans[i - 1].first) + " and " + std::to_string(spans[i].first) + " overlap");
    // articulations
    for (uint64_t i = 0; i < nA && i < Ar.n; i++) {
      nart++;
      auto rel = num(Ar.I, Ar.m, "eg1.releaseTime", i * Ar.es, true), q = num(Ar.I, Ar.m, "filterQ", i * Ar.es), at = num(Ar.I, Ar.m, "eg1.attackTime", i * Ar.es, true);
      if (!rel || !q || !at) { R.broken.push_back("articulation table not understood"); break; }
      cmps += 3;
      auto ab = [&](const std::string &k, const std::string &m) { bad("articulation-" + k + ":" + std::to_string(i), "articulation " + std::to_string(i) + " of " + Ar.where + ": " + m); };
      if (*rel < 0 || *rel >= 32767) ab("release", "release factor " + std::to_string(*rel) + ": a released note does not fade away");
      if (*at <= 0) ab("attack", "attack step " + std::to_string(*at) + ": a note never rises from silence");
      if (*q > 30) ab("filter", "filter resonance " + std::to_string(*q) + " is beyond the resonance table");
    }
    // programs: from the first region to the one marked last; every key of the instrument finds a region
    std::set<uint64_t> reached;
    auto program = [&](const std::string &what, const std::string &key, uint64_t ri, bool melodic, bool pitched) {
      nprog++;
      cmps += 3;
      if (ri == 0xffff) { bad("no-program:" + key, what + " has no sound"); return; }
      if (ri & 0xc000) { bad("program-synth:" + key, what + " is marked as played by a synthesizer that is not part of the library"); return; }
      if (ri >= nR) { bad("program:" + key, what + " starts at region " + std::to_string(ri) + " of " + std::to_string(nR)); return; }
      std::vector<int> k(128, -1);
      uint64_t i = ri;
      for (;; i++) {
        if (i >= nR) { bad("region-list:" + key, what + ": no region from " + std::to_string(ri) + " on is marked as the last one, the search runs out of " + Rg.where); return; }
        reached.insert(i);
        auto &r = regs[i];
        bool any = false;
        for (uint64_t n = r.lo; n <= r.hi && n < 128; n++) if (k[n] < 0) k[n] = i, any = true;
        if (!any && r.lo <= r.hi) bad("shadowed:" + key + ":" + std::to_string(i), what + ": region " + std::to_string(i) + " is never chosen, earlier regions take all its keys");
        if (pitched && (r.flags & 1) && !(r.flags & 2) && r.le > r.ls + 1) {
          // period of the loop in cycles of its key: the same for every key, the playback rate follows the key
          double cyc = 440.0 * std::pow(2.0, -69.0 / 12) * double(r.le - r.ls) / (double(rate) * std::pow(2.0, r.tuning / 1200.0));
          if (cyc > 0.6 && cyc < 2.5) {
            double c = 1200 * std::log2(cyc / std::round(cyc));
            tuned++;
            cmps++;
            if (std::fabs(c) > 35) bad("tuning:" + key + ":" + std::to_string(i), what + ": region " + std::to_string(i) + " loops " + std::to_string(r.le - r.ls) + " frames with tuning " + std::to_string(r.tuning) + ", which is " + std::to_string((int)std::lround(c)) + " cents off the pitch of its keys");
          } else if (cyc <= 0.6) bad("tuning:" + key + ":" + std::to_string(i), what + ": region " + std::to_string(i) + " loops less than a period of its key");
        }
        if (r.flags & 0x8000) break;
      }
      int first = -1, last = -1, hole = -1, have = 0, gm = -1;
      for (int n = 0; n < 128; n++)
        if (k[n] >= 0) { if (first < 0) first = n; last = n; have++; }
        else if (n >= 35 && n <= 81 && gm < 0) gm = n;
      for (int n = first; n >= 0 && n <= last; n++) if (k[n] < 0 && hole < 0) hole = n;
      if (first < 0) bad("silent:" + key, what + " has no key with a sound");
      if (hole >= 0) bad("keys:" + key, what + ": key " + std::to_string(hole) + " has no region, keys below and above it have");
      if (!melodic && gm >= 0) bad("rhythm:" + key, what + ": key " + std::to_string(gm) + " of the General MIDI percussion map (35..81) has no sound");
      if (melodic && have < 12) bad("range:" + key, what + " has sounds for fewer than twelve keys");
      R.note("programs and keys", what + ": keys " + std::to_string(first) + ".." + std::to_string(last), 200);
      covered += have;
    };
    bool mel = false, rhy = false;
    for (uint64_t b = 0; b < nB; b++) {
      auto it = B.m.find("regionIndex");
      auto loc = num(B.I, B.m, "locale", b * B.es);
      if (it == B.m.end() || !loc) { R.broken.push_back("bank table not understood"); break; }
      for (unsigned p = 0; p < 128; p++) {
        auto *c = D.at(B.I, b * B.es + it->second.ofs + 2 * p, Type::getInt16Ty(P.ctx));
        uint64_t ri = c && isa<ConstantInt>(c) ? cast<ConstantInt>(c)->getZExtValue() : 0;
        program("bank " + std::to_string(b) + " program " + std::to_string(p), std::to_string(b) + "/" + std::to_string(p), ri, true, p < 120); // 120..127 are the General MIDI sound effects
      }
      mel |= *loc == 0x7900;
      R.note("banks", std::to_string(b) + ": locale " + std::to_string(*loc));
    }
    for (uint64_t i = 0; i < nP; i++) {
      auto ri = num(Pr.I, Pr.m, "regionIndex", i * Pr.es), loc = num(Pr.I, Pr.m, "locale", i * Pr.es);
      if (!ri || !loc) { R.broken.push_back("program table not understood"); break; }
      rhy |= *loc == 0x780000;
      R.note("programs", "locale " + std::to_string(*loc) + " region " + std::to_string(*ri));
      program("program entry " + std::to_string(i), "p" + std::to_string(i), *ri, false, false);
    }
    for (uint64_t i = 0; i < nR; i++) if (!reached.count(i)) bad("unreached:" + std::to_string(i), "region " + std::to_string(i) + " belongs to no program, its keys are silent");
    if (!mel) bad("no-melodic-bank", "no bank carries the default melodic bank number, notes would find no program");
    if (!rhy) bad("no-rhythm-program", "no program carries the default rhythm bank number, drums would find no program");
    for (uint64_t i = 0; i < nA; i++) if (!usedA.count(i)) R.note("articulations no region uses", std::to_string(i));
  }
  if (!found) R.broken.push_back("no built-in sound library found");
  R.stats["banks"] = banks; R.stats["regions"] = nreg; R.stats["programs"] = nprog; R.stats["samples"] = nsmp; R.stats["articulations"] = nart;
  R.stats["keys_with_sound"] = covered; R.stats["comparisons"] = cmps; R.stats["tuned_loops"] = tuned;
}
static NormOpts bo() { NormOpts o; return o; }
static Reg r1("bank", anBank, bo());
